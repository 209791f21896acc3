From 287e1899993aeada26e063f6e5da119bf395772d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 01/58] fix: drop SIP messages lacking mandatory headers
 instead of crashing

A datagram without a Via, From or To header (or a status line of 000)
parses fine but caused nil pointer panics in the receiver and dialog.
---
 dialog/receiver.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dialog/receiver.go b/dialog/receiver.go
index 19f575c..492d96f 100644
--- a/dialog/receiver.go
+++ b/dialog/receiver.go
@@ -44,6 +44,10 @@ func ReceiveMessages(sock *net.UDPConn, c chan<- *sip.Msg, e chan<- error) {
 			log.Printf("Dropping SIP message: %s\r\n", err)
 			continue
 		}
+		if !hasMandatoryHeaders(msg) {
+			log.Printf("Dropping SIP message: mandatory header missing\r\n")
+			continue
+		}
 		addReceived(msg, addr)
 		addTimestamp(msg, ts)
 		if msg.Route != nil && msg.Route.Uri.Host == lhost && or5060(msg.Route.Uri.Port) == lport {
@@ -56,6 +60,15 @@ func ReceiveMessages(sock *net.UDPConn, c chan<- *sip.Msg, e chan<- error) {
 	close(e) // Must be unbuffered!
 }
 
+// Returns true if message has the stuff everything past this point, including
+// the application, relies upon being there.
+func hasMandatoryHeaders(msg *sip.Msg) bool {
+	return (msg.Via != nil &&
+		msg.From != nil &&
+		msg.To != nil &&
+		(msg.IsResponse() || msg.Request != nil))
+}
+
 func addReceived(msg *sip.Msg, addr *net.UDPAddr) {
 	if msg.IsResponse() {
 		return
-- 
2.43.0


From 3115c9f2f3ca3339dd37549fcb432fcecb767da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 02/58] fix: don't let received messages alias the receive
 buffer

Extension header values and non-SDP payloads are slices of the packet
passed to ParseMsg, so the next datagram overwrote them.
---
 dialog/receiver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dialog/receiver.go b/dialog/receiver.go
index 492d96f..dbfea39 100644
--- a/dialog/receiver.go
+++ b/dialog/receiver.go
@@ -35,7 +35,8 @@ func ReceiveMessages(sock *net.UDPConn, c chan<- *sip.Msg, e chan<- error) {
 			break
 		}
 		ts := time.Now()
-		packet := buf[0:amt]
+		packet := make([]byte, amt) // Not a slice of buf since msg may alias it.
+		copy(packet, buf)
 		if *tracing {
 			trace("recv", packet, addr)
 		}
-- 
2.43.0


From a2579dc95931c3b8b436bc79681e3a907836995a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 03/58] fix: dialog cleanup deadlock with its receiver
 goroutine

ReceiveMessages publishes its error before closing the message channel,
but cleanup waited on the message channel first. So calls never reached
the point of closing their channels, and SRV failover hung.
---
 dialog/dialog.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 7e397d6..2296405 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -502,8 +502,7 @@ func (dls *dialogState) cleanupSock() {
 	if dls.sock != nil {
 		dls.sock.Close()
 		dls.sock = nil
-		<-dls.sockMsgs
-		<-dls.sockErrs
+		awaitReceiver(dls.sockMsgs, dls.sockErrs)
 	}
 }
 
@@ -511,7 +510,23 @@ func (dls *dialogState) cleanupCSock() {
 	if dls.csock != nil {
 		dls.csock.Close()
 		dls.csock = nil
-		<-dls.csockMsgs
-		<-dls.csockErrs
+		awaitReceiver(dls.csockMsgs, dls.csockErrs)
+	}
+}
+
+// awaitReceiver waits for ReceiveMessages to notice its socket was closed, while
+// discarding whatever it still had to say.
+func awaitReceiver(c <-chan *sip.Msg, e <-chan error) {
+	for c != nil || e != nil {
+		select {
+		case _, ok := <-c:
+			if !ok {
+				c = nil
+			}
+		case _, ok := <-e:
+			if !ok {
+				e = nil
+			}
+		}
 	}
 }
-- 
2.43.0


From 7659b0b6e33796233ce040c1ce39a74b938ef333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 04/58] fix: recognize ICMP refusal so dialog fails over to
 next address

Go wraps the errno in *os.SyscallError, so IsRefused was always false.
The code it guards then used the socket it had just set to nil.
---
 dialog/dialog.go | 2 +-
 util/util.go     | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 2296405..90a6121 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -112,7 +112,7 @@ func (dls *dialogState) run() {
 			dls.sock.Close()
 			dls.sock = nil
 			if util.IsRefused(err) {
-				log.Printf("ICMP refusal: %s (%s)\r\n", dls.sock.RemoteAddr(), dls.dest)
+				log.Printf("ICMP refusal: %s (%s)\r\n", dls.addr, dls.dest)
 				if !dls.popRoute() {
 					return
 				}
diff --git a/util/util.go b/util/util.go
index 7ffce9a..7a69062 100755
--- a/util/util.go
+++ b/util/util.go
@@ -17,9 +17,9 @@ package util
 import (
 	"crypto/rand"
 	"encoding/hex"
+	"errors"
 	"math"
 	"math/big"
-	"net"
 	"strconv"
 	"strings"
 	"syscall"
@@ -27,8 +27,7 @@ import (
 
 // Return true if error is ICMP connection refused.
 func IsRefused(err error) bool {
-	operr, ok := err.(*net.OpError)
-	return ok && operr.Err == syscall.ECONNREFUSED
+	return errors.Is(err, syscall.ECONNREFUSED)
 }
 
 // Return true if error was caused by reading from a closed socket.
-- 
2.43.0


From 117600731d606ac765fcc2bb22b32e4a4aa85b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:07 +0000
Subject: [PATCH 05/58] fix: don't give up on call when a write reports an
 earlier ICMP refusal

Linux hands a pending ICMP error to whichever of read or write comes
first, so failover depended on the receiver winning that race.
---
 dialog/dialog.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 90a6121..73ee79a 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -414,7 +414,10 @@ func (dls *dialogState) send(msg *sip.Msg) bool {
 		trace("send", dls.b.Bytes(), dls.sock.RemoteAddr())
 	}
 	_, err := dls.sock.Write(dls.b.Bytes())
-	if err != nil {
+	if util.IsRefused(err) {
+		// This is about something we sent earlier. Resends make up for it.
+		log.Printf("ICMP refusal: %s (%s)\r\n", dls.addr, dls.dest)
+	} else if err != nil {
 		dls.errChan <- err
 		return false
 	}
-- 
2.43.0


From 38e2593b36780c8ab66b071e3fd4305b68e67b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 06/58] fix: acknowledge call failures that lack a Contact
 header

Error responses normally have no Contact, yet it was demanded, so the
caller got a bogus error rather than the response, SRV failover on 503
never happened, and the remote kept retransmitting for want of an ACK.
RFC3261 17.1.1.3 says such an ACK uses the Request-URI of the INVITE.
---
 dialog/dialog.go   |  4 ++--
 dialog/messages.go | 12 +++++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 73ee79a..b73955e 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -303,8 +303,8 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 		return true
 	}
 	if msg.Status >= sip.StatusOK && dls.request.Method == sip.MethodInvite {
-		if msg.Contact == nil {
-			dls.errChan <- errors.New("Remote UA sent >=200 response w/o Contact")
+		if msg.Contact == nil && msg.Status < sip.StatusMultipleChoices {
+			dls.errChan <- errors.New("Remote UA sent 2xx response w/o Contact")
 			return false
 		}
 		if !dls.send(NewAck(msg, dls.request)) {
diff --git a/dialog/messages.go b/dialog/messages.go
index e625277..0f4c79c 100644
--- a/dialog/messages.go
+++ b/dialog/messages.go
@@ -58,20 +58,26 @@ func NewResponse(msg *sip.Msg, status int) *sip.Msg {
 
 // http://tools.ietf.org/html/rfc3261#section-17.1.1.3
 func NewAck(msg, invite *sip.Msg) *sip.Msg {
-	return &sip.Msg{
+	ack := &sip.Msg{
 		Method:             sip.MethodAck,
-		Request:            msg.Contact.Uri,
+		Request:            invite.Request,
 		From:               msg.From,
 		To:                 msg.To,
 		Via:                msg.Via.Detach(),
 		CallID:             msg.CallID,
 		CSeq:               msg.CSeq,
 		CSeqMethod:         "ACK",
-		Route:              msg.RecordRoute.Reversed(),
+		Route:              invite.Route,
 		Authorization:      invite.Authorization,
 		ProxyAuthorization: invite.ProxyAuthorization,
 		UserAgent:          GosipUA,
 	}
+	if msg.Status < sip.StatusMultipleChoices {
+		// Only a 2xx establishes a dialog with its own target and route set.
+		ack.Request = msg.Contact.Uri
+		ack.Route = msg.RecordRoute.Reversed()
+	}
+	return ack
 }
 
 func NewCancel(invite *sip.Msg) *sip.Msg {
-- 
2.43.0


From e35afdeaee34aad7ed061f581c32818915376921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 07/58] fix: keep remaining SRV addresses until call gets a
 final response

They were forgotten before looking at the status code, so the failover
upon 503 Service Unavailable always failed instead.
---
 dialog/dialog.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index b73955e..8a52b3f 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -311,7 +311,9 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 			return false
 		}
 	}
-	dls.routes = nil
+	if msg.Status >= sip.StatusOK && msg.Status != sip.StatusServiceUnavailable {
+		dls.routes = nil
+	}
 	dls.requestTimer = nil
 	if msg.Status <= sip.StatusOK {
 		dls.checkSDP(msg)
-- 
2.43.0


From 4fba989a9b86c3603437fa568f5d637179129bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 08/58] fix: redirect response without Contact, or to a BYE

The former crashed, and the latter placed the call all over again.
---
 dialog/dialog.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 8a52b3f..b5b62ed 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -343,6 +343,10 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 			return false
 		}
 	case sip.StatusMovedPermanently, sip.StatusMovedTemporarily:
+		if dls.request != dls.invite || msg.Contact == nil {
+			dls.errChan <- &sip.ResponseError{Msg: msg}
+			return false
+		}
 		dls.invite.Request = msg.Contact.Uri
 		dls.invite.Route = nil
 		return dls.sendRequest(dls.invite)
-- 
2.43.0


From 48a0e5a55cc968c0520ab6ed28d60ae49108bd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 09/58] fix: late or duplicate INVITE responses disturbing the
 call

A provisional response overtaken by the answer moved the state back to
ringing, so that hanging up sent CANCEL rather than BYE. Along with a
retransmitted answer, it could also revert the media peer.
---
 dialog/dialog.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index b5b62ed..0d62fab 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -311,6 +311,10 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 			return false
 		}
 	}
+	if dls.state == Answered && dls.request == dls.invite {
+		// Answer was retransmitted or overtook some other response.
+		return true
+	}
 	if msg.Status >= sip.StatusOK && msg.Status != sip.StatusServiceUnavailable {
 		dls.routes = nil
 	}
@@ -320,7 +324,9 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 	}
 	switch msg.Status {
 	case sip.StatusTrying:
-		dls.transition(Proceeding)
+		if dls.state < Ringing {
+			dls.transition(Proceeding)
+		}
 	case sip.StatusRinging, sip.StatusSessionProgress:
 		dls.transition(Ringing)
 	case sip.StatusOK:
-- 
2.43.0


From 4dffc5f777977a085f1a22a9c1f90cb7557a90ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 10/58] fix: don't respond to responses and ACKs that don't
 match the call

Two user agents doing that would bounce a stray message back and forth
forever.
---
 dialog/dialog.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 0d62fab..f23877c 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -280,7 +280,7 @@ func (dls *dialogState) populate(msg *sip.Msg) {
 
 func (dls *dialogState) handleMessage(msg *sip.Msg) bool {
 	if msg.VersionMajor != 2 || msg.VersionMinor != 0 {
-		if !dls.send(NewResponse(msg, sip.StatusVersionNotSupported)) {
+		if wantsResponse(msg) && !dls.send(NewResponse(msg, sip.StatusVersionNotSupported)) {
 			return false
 		}
 		dls.errChan <- errors.New("Remote UA is using a strange SIP version")
@@ -288,6 +288,9 @@ func (dls *dialogState) handleMessage(msg *sip.Msg) bool {
 	}
 	if msg.CallID != dls.request.CallID {
 		log.Printf("Received message doesn't match dialog\r\n")
+		if !wantsResponse(msg) {
+			return true
+		}
 		return dls.send(NewResponse(msg, sip.StatusCallTransactionDoesNotExist))
 	}
 	if msg.IsResponse() {
@@ -297,6 +300,11 @@ func (dls *dialogState) handleMessage(msg *sip.Msg) bool {
 	}
 }
 
+// wantsResponse returns false for messages SIP says must not be responded to.
+func wantsResponse(msg *sip.Msg) bool {
+	return !msg.IsResponse() && msg.Method != sip.MethodAck
+}
+
 func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 	if !ResponseMatch(dls.request, msg) {
 		log.Printf("Received response doesn't match transaction\r\n")
-- 
2.43.0


From 594574d16fb258c1d4968e9213e230134fe745e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:03 +0000
Subject: [PATCH 11/58] fix: ACK overtaken by another request was refused and
 not accounted for

It got a 500 response for being out of order, while the response it was
for kept being retransmitted until the call failed. Conversely a stale
ACK stopped retransmission of a newer response.
---
 dialog/dialog.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index f23877c..0325dbc 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -374,6 +374,13 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 }
 
 func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
+	if msg.Method == sip.MethodAck { // Re-INVITE response has been ACK'd.
+		if dls.response != nil && dls.response.CSeq == msg.CSeq {
+			dls.response = nil
+			dls.responseTimer = nil
+		}
+		return true
+	}
 	if msg.MaxForwards <= 0 {
 		if !dls.send(NewResponse(msg, sip.StatusTooManyHops)) {
 			return false
@@ -403,10 +410,6 @@ func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
 		dls.remote = msg
 		dls.checkSDP(msg)
 		return dls.sendResponse(NewResponse(msg, sip.StatusOK))
-	case sip.MethodAck: // Re-INVITE response has been ACK'd.
-		dls.response = nil
-		dls.responseTimer = nil
-		return true
 	default:
 		return dls.send(NewResponse(msg, sip.StatusMethodNotAllowed))
 	}
-- 
2.43.0


From 562d9c9e2490d4bd8eb3e77613bfbd84a288f036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:03 +0000
Subject: [PATCH 12/58] fix: crash when remote session description has no audio

---
 dialog/dialog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 0325dbc..c738958 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -416,7 +416,7 @@ func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
 }
 
 func (dls *dialogState) checkSDP(msg *sip.Msg) {
-	if ms, ok := msg.Payload.(*sdp.SDP); ok {
+	if ms, ok := msg.Payload.(*sdp.SDP); ok && ms.Audio != nil {
 		dls.peerChan <- &net.UDPAddr{IP: net.ParseIP(ms.Addr), Port: int(ms.Audio.Port)}
 	}
 }
-- 
2.43.0


From 5fca995b46629ec0fb748f73a5a7201ad83b64d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 13/58] fix: re-INVITE from remote must only refresh its
 Contact

The request was taken for the message that established the dialog, so
the eventual BYE was addressed to ourselves with the wrong tags and
route set, and it crashed if the re-INVITE had no Contact.
---
 dialog/dialog.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index c738958..e7ed05e 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -340,10 +340,8 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 	case sip.StatusOK:
 		switch msg.CSeqMethod {
 		case sip.MethodInvite:
-			if dls.remote == nil {
-				dls.transition(Answered)
-			}
 			dls.remote = msg
+			dls.transition(Answered)
 		case sip.MethodBye, sip.MethodCancel:
 			dls.transition(Hangup)
 			return false
@@ -407,7 +405,9 @@ func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
 	case sip.MethodOptions: // Probably a keep-alive ping.
 		return dls.send(NewResponse(msg, sip.StatusOK))
 	case sip.MethodInvite: // Re-INVITEs are used to change the RTP or signalling path.
-		dls.remote = msg
+		if dls.remote != nil && msg.Contact != nil {
+			dls.remote.Contact = msg.Contact
+		}
 		dls.checkSDP(msg)
 		return dls.sendResponse(NewResponse(msg, sip.StatusOK))
 	default:
-- 
2.43.0


From b976fb5186ce25e7f01ce9dffba8692734df6073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 14/58] fix: provisional response to BYE stopped its
 retransmission

So the call would never end if the final response got lost. It could
also move the call back to the ringing state.
---
 dialog/dialog.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index e7ed05e..d7b817b 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -323,6 +323,10 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 		// Answer was retransmitted or overtook some other response.
 		return true
 	}
+	if msg.Status < sip.StatusOK && dls.request != dls.invite {
+		// Only for INVITE does this mean the remote will take it from here.
+		return true
+	}
 	if msg.Status >= sip.StatusOK && msg.Status != sip.StatusServiceUnavailable {
 		dls.routes = nil
 	}
-- 
2.43.0


From 1d3b4b7454c44b2453ad5bc1004c5fabb688793a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 15/58] fix: hanging up an unanswered call

CANCEL was sent before any provisional response, was never resent, and
its response was never recognized, so the call could stay up forever.
The 487 it causes was reported as an error, an answer that crossed it
left the remote off the hook, and a failure, timeout or redirect that
crossed it placed the call again. Now the call ends with BYE if it was
answered meanwhile, and with hangup once the INVITE got resolved, or no
response came.
---
 dialog/dialog.go | 47 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index d7b817b..e8bb791 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -67,6 +67,9 @@ type dialogState struct {
 	csock           *net.UDPConn     // Inbound socket for Contact field.
 	routes          *AddressRoute    // List of SRV addresses to attempt contacting.
 	invite          *sip.Msg         // Our INVITE that established the dialog.
+	hangup          bool             // Application wants the call to end.
+	cancel          *sip.Msg         // CANCEL for unanswered INVITE or nil.
+	cancelled       bool             // Remote got CANCEL but INVITE is unresolved.
 	remote          *sip.Msg         // Message from remote UA that established dialog.
 	request         *sip.Msg         // Current outbound request message.
 	requestResends  int              // Number of REsends of message so far.
@@ -168,6 +171,10 @@ func (dls *dialogState) sendRequest(request *sip.Msg) bool {
 }
 
 func (dls *dialogState) popRoute() bool {
+	if dls.hangup && dls.request == dls.invite {
+		dls.transition(Hangup)
+		return false
+	}
 	if dls.routes == nil {
 		dls.errChan <- errors.New("Failed to contact: " + dls.dest)
 		return false
@@ -306,6 +313,10 @@ func wantsResponse(msg *sip.Msg) bool {
 }
 
 func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
+	if dls.cancel != nil && ResponseMatch(dls.cancel, msg) {
+		dls.cancelled = true
+		return true
+	}
 	if !ResponseMatch(dls.request, msg) {
 		log.Printf("Received response doesn't match transaction\r\n")
 		return true
@@ -327,6 +338,14 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 		// Only for INVITE does this mean the remote will take it from here.
 		return true
 	}
+	if msg.Status < sip.StatusOK && dls.cancel != nil {
+		return true
+	}
+	if msg.Status >= sip.StatusMultipleChoices && dls.hangup && dls.request == dls.invite {
+		// Most likely 487 Request Terminated.
+		dls.transition(Hangup)
+		return false
+	}
 	if msg.Status >= sip.StatusOK && msg.Status != sip.StatusServiceUnavailable {
 		dls.routes = nil
 	}
@@ -345,8 +364,10 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 		switch msg.CSeqMethod {
 		case sip.MethodInvite:
 			dls.remote = msg
+			dls.cancel = nil
+			dls.cancelled = false
 			dls.transition(Answered)
-		case sip.MethodBye, sip.MethodCancel:
+		case sip.MethodBye:
 			dls.transition(Hangup)
 			return false
 		}
@@ -372,6 +393,9 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 			return false
 		}
 	}
+	if dls.hangup && dls.request == dls.invite {
+		return dls.sendHangup()
+	}
 	return true
 }
 
@@ -456,7 +480,11 @@ func (dls *dialogState) resendRequest() bool {
 		return true
 	}
 	if dls.requestResends < *maxResends {
-		if !dls.send(dls.request) {
+		msg := dls.request
+		if dls.cancel != nil {
+			msg = dls.cancel
+		}
+		if !dls.cancelled && !dls.send(msg) {
 			return false
 		}
 		dls.requestResends++
@@ -499,10 +527,12 @@ func (dls *dialogState) resendResponse() bool {
 }
 
 func (dls *dialogState) sendHangup() bool {
+	dls.hangup = true
 	switch dls.state {
-	case Proceeding, Ringing:
-		return dls.send(NewCancel(dls.invite))
 	case Answered:
+		if dls.request != dls.invite {
+			return true // BYE has already been sent.
+		}
 		return dls.sendRequest(NewBye(dls.invite, dls.remote, &dls.lseq))
 	case Hangup:
 		panic("Why didn't the event loop break?")
@@ -510,8 +540,13 @@ func (dls *dialogState) sendHangup() bool {
 		//  o  A UA or proxy cannot send CANCEL for a transaction until it gets a
 		//     provisional response for the request.  This was allowed in RFC 2543
 		//     but leads to potential race conditions.
-		dls.transition(Hangup)
-		return false
+		if dls.requestTimer != nil {
+			return true
+		}
+		dls.cancel = NewCancel(dls.invite)
+		dls.requestResends = 0
+		dls.requestTimer = time.After(duration(resendInterval))
+		return dls.send(dls.cancel)
 	}
 }
 
-- 
2.43.0


From 08a7b2d225e7b13bddd523c687079e8f704d9673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 16/58] fix: crash when response has no Via header besides our
 own

---
 dialog/route.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dialog/route.go b/dialog/route.go
index 3cdd88d..1093455 100644
--- a/dialog/route.go
+++ b/dialog/route.go
@@ -81,6 +81,9 @@ func RouteMessage(via *sip.Via, contact *sip.Addr, msg *sip.Msg) (host string, p
 		if via.CompareHostPort(msg.Via) {
 			msg.Via = msg.Via.Next
 		}
+		if msg.Via == nil {
+			return "", 0, errors.New("Response has no Via to send it to")
+		}
 
 		host, port = msg.Via.Host, msg.Via.Port
 		if received := msg.Via.Param.Get("received"); received != nil {
-- 
2.43.0


From 33b54efcee7aabb12232fb8ed4054cac5b5cd2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 17/58] fix: transport must default to port 5060

Sending to an address without a port failed with invalid argument.
---
 dialog/transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/transport.go b/dialog/transport.go
index 5cf7e99..008f060 100755
--- a/dialog/transport.go
+++ b/dialog/transport.go
@@ -82,7 +82,7 @@ func (tp *Transport) Send(msg *sip.Msg) error {
 	if err != nil {
 		return err
 	}
-	addr, err := net.ResolveUDPAddr("udp", net.JoinHostPort(host, util.Portstr(port)))
+	addr, err := net.ResolveUDPAddr("udp", net.JoinHostPort(host, util.Portstr(or5060(port))))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 290a224297029166c46db8cac6f28680c074e72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 18/58] fix: transport reset exhausted Max-Forwards to 70

Zero means use the default, so a request forwarded in a loop would go
around forever.
---
 dialog/transport.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dialog/transport.go b/dialog/transport.go
index 008f060..81066ad 100755
--- a/dialog/transport.go
+++ b/dialog/transport.go
@@ -19,6 +19,7 @@ package dialog
 
 import (
 	"bytes"
+	"errors"
 	"net"
 	"time"
 
@@ -86,6 +87,9 @@ func (tp *Transport) Send(msg *sip.Msg) error {
 	if err != nil {
 		return err
 	}
+	if msg.MaxForwards == 1 {
+		return errors.New("Local froot loop detected")
+	}
 	if msg.MaxForwards > 0 {
 		msg.MaxForwards--
 	}
-- 
2.43.0


From b469bbdea753b572eb0070e3cd83fab22bef5e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 19/58] fix: messages sharing the branch of the first one
 transport sent

Filling in a missing Via header put the generated branch parameter in
the Via of the transport itself, where all later messages got it from.
---
 dialog/route.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/route.go b/dialog/route.go
index 1093455..b88d4f8 100644
--- a/dialog/route.go
+++ b/dialog/route.go
@@ -32,7 +32,7 @@ type AddressRoute struct {
 func PopulateMessage(via *sip.Via, contact *sip.Addr, msg *sip.Msg) {
 	if !msg.IsResponse() {
 		if msg.Via == nil {
-			msg.Via = via
+			msg.Via = via.Copy() // Because it's about to get a branch.
 		}
 		if msg.Contact == nil {
 			msg.Contact = contact
-- 
2.43.0


From 1c1b14c86d088b10dd2a583775f6986e5578352c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 20/58] fix: Via without port means 5060

Responses to a user agent on port 5060 weren't recognized, since its Via
is sent without the port, and a Via without port was sent as port 0.
---
 sip/via.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sip/via.go b/sip/via.go
index 231ef9b..d903499 100755
--- a/sip/via.go
+++ b/sip/via.go
@@ -54,7 +54,7 @@ func (via *Via) Append(b *bytes.Buffer) {
 		b.WriteString(" ")
 	}
 	b.WriteString(via.Host)
-	if via.Port != 5060 {
+	if via.Port != 0 && via.Port != 5060 {
 		b.WriteString(":")
 		b.WriteString(strconv.Itoa(int(via.Port)))
 	}
@@ -103,13 +103,21 @@ func (via *Via) Last() *Via {
 func (via *Via) CompareHostPort(other *Via) bool {
 	if via != nil && other != nil {
 		if via.Host == other.Host &&
-			via.Port == other.Port {
+			via.GetPort() == other.GetPort() {
 			return true
 		}
 	}
 	return false
 }
 
+// GetPort returns port number, or the default if there isn't one.
+func (via *Via) GetPort() uint16 {
+	if via.Port == 0 {
+		return 5060
+	}
+	return via.Port
+}
+
 func (via *Via) CompareBranch(other *Via) bool {
 	if via != nil && other != nil {
 		if b1 := via.Param.Get("branch"); b1 != nil {
-- 
2.43.0


From ec5f892fa43e17f6d0b9f6fa7c7a947d9c474b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:04 +0000
Subject: [PATCH 21/58] fix: Via with IPv6 host must have it in brackets

Otherwise nobody, including us, can parse the message.
---
 sip/via.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sip/via.go b/sip/via.go
index d903499..fa47d1a 100755
--- a/sip/via.go
+++ b/sip/via.go
@@ -53,7 +53,13 @@ func (via *Via) Append(b *bytes.Buffer) {
 		b.WriteString(via.Transport)
 		b.WriteString(" ")
 	}
-	b.WriteString(via.Host)
+	if util.IsIPv6(via.Host) {
+		b.WriteByte('[')
+		b.WriteString(via.Host)
+		b.WriteByte(']')
+	} else {
+		b.WriteString(via.Host)
+	}
 	if via.Port != 0 && via.Port != 5060 {
 		b.WriteString(":")
 		b.WriteString(strconv.Itoa(int(via.Port)))
-- 
2.43.0


From 633047776a850cb40474acf342d0be445fd9aa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 22/58] fix: copying an address lost its display name

---
 sip/addr.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sip/addr.go b/sip/addr.go
index acb56c7..983ef41 100755
--- a/sip/addr.go
+++ b/sip/addr.go
@@ -93,6 +93,7 @@ func (addr *Addr) Copy() *Addr {
 	}
 	res := new(Addr)
 	res.Uri = addr.Uri.Copy()
+	res.Display = addr.Display
 	res.Param = addr.Param
 	res.Next = addr.Next.Copy()
 	return res
-- 
2.43.0


From 286ffb495e54d7bb54f8e5b2d89a472682f7bed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 23/58] fix: Retry-After and Accept-Contact headers were lost
 when sending

The former was misspelled and the latter was left out.
---
 sip/msg.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sip/msg.go b/sip/msg.go
index 9ddac8f..de346b9 100755
--- a/sip/msg.go
+++ b/sip/msg.go
@@ -223,6 +223,12 @@ func (msg *Msg) Append(b *bytes.Buffer) {
 		b.WriteString("\r\n")
 	}
 
+	if msg.AcceptContact != "" {
+		b.WriteString("Accept-Contact: ")
+		b.WriteString(msg.AcceptContact)
+		b.WriteString("\r\n")
+	}
+
 	if msg.AcceptEncoding != "" {
 		b.WriteString("Accept-Encoding: ")
 		b.WriteString(msg.AcceptEncoding)
@@ -399,7 +405,7 @@ func (msg *Msg) Append(b *bytes.Buffer) {
 	}
 
 	if msg.RetryAfter != "" {
-		b.WriteString("RetryAfter: ")
+		b.WriteString("Retry-After: ")
 		b.WriteString(msg.RetryAfter)
 		b.WriteString("\r\n")
 	}
-- 
2.43.0


From 48bb402a49778da653255c086b0550d9a73df52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:22 +0000
Subject: [PATCH 24/58] fix: consecutive DTMF digits were indistinguishable

Events are identified by their timestamp, which didn't advance, so the
remote would see one long digit when the same one was pressed twice.
The marker bit also stuck to audio that followed a failed write.
---
 rtp/session.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rtp/session.go b/rtp/session.go
index bd4cb1a..769d497 100644
--- a/rtp/session.go
+++ b/rtp/session.go
@@ -130,6 +130,11 @@ func (rs *Session) SendDTMF(digit byte) error {
 	}
 	rs.Header.PT = sdp.DTMFCodec.PT
 	rs.Header.Mark = true
+	defer func() {
+		// RFC4733 identifies events by timestamp.
+		rs.Header.Mark = false
+		rs.Header.TS += dtmfDuration
+	}()
 	var event [4]byte
 	event[0] = code
 	event[1] = dtmfVolume & 0x3f
-- 
2.43.0


From 296aee6993f837fbe7fad8cd23eca49533f13cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:58 +0000
Subject: [PATCH 25/58] fix: RTP session close hanging, and nil frames upon
 socket errors

Close waited forever if the application hadn't returned a frame. When
the socket failed, the frame channel was closed before the error was
published, so the usual event loop got stuck returning a nil frame. The
closed channels then kept it spinning after CloseAfterError.
---
 rtp/session.go | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/rtp/session.go b/rtp/session.go
index 769d497..7110b20 100644
--- a/rtp/session.go
+++ b/rtp/session.go
@@ -171,23 +171,37 @@ func (rs *Session) Close() {
 	if rs == nil || rs.Sock == nil {
 		return
 	}
-	rs.Sock.Close()
-	if frame, ok := <-rs.C; ok {
-		rs.R <- frame
-	}
-	<-rs.E
-	rs.Sock = nil
-	close(rs.R)
+	rs.shutdown()
 }
 
 func (rs *Session) CloseAfterError() {
 	if rs == nil || rs.Sock == nil {
 		return
 	}
+	rs.shutdown()
+}
+
+// shutdown waits for the receiver to go away, no matter what it's doing.
+func (rs *Session) shutdown() {
 	rs.Sock.Close()
 	rs.Sock = nil
 	close(rs.R)
-	<-rs.E
+	c, e := rs.C, rs.E
+	for c != nil || e != nil {
+		select {
+		case _, ok := <-c:
+			if !ok {
+				c = nil
+			}
+		case _, ok := <-e:
+			if !ok {
+				e = nil
+			}
+		}
+	}
+	// Keep the application's event loop from receiving zero values.
+	rs.C = nil
+	rs.E = nil
 }
 
 func receiver(sock *net.UDPConn, c chan<- *Frame, e chan<- error, r <-chan *Frame) {
@@ -196,7 +210,6 @@ func receiver(sock *net.UDPConn, c chan<- *Frame, e chan<- error, r <-chan *Fram
 	for {
 		amt, _, err := sock.ReadFrom(buf)
 		if err != nil {
-			close(c)
 			e <- err
 			break
 		}
@@ -221,6 +234,7 @@ func receiver(sock *net.UDPConn, c chan<- *Frame, e chan<- error, r <-chan *Fram
 		c <- frame
 		frame = <-r
 	}
+	close(c)
 	close(e)
 }
 
-- 
2.43.0


From 9cc0d0d3dfe42a50140813abba8c9ab74f5b3928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 26/58] fix: local address in INVITE was stale after failing
 over to one reached from another

---
 dialog/dialog.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index e8bb791..99102a7 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -79,6 +79,10 @@ type dialogState struct {
 	responseTimer   <-chan time.Time // Resend timer for message.
 	lseq            int              // Local CSeq value.
 	rseq            int              // Remote CSeq value.
+	via             *sip.Via         // Via not supplied by application or nil.
+	contact         *sip.Addr        // Contact not supplied by application or nil.
+	sdpAddr         bool             // Application left SDP address up to us.
+	originAddr      bool             // Application left SDP origin address up to us.
 	b               bytes.Buffer     // Outbound message buffer.
 }
 
@@ -238,8 +242,13 @@ func (dls *dialogState) populate(msg *sip.Msg) {
 	lhost := laddr.IP.String()
 	lport := uint16(laddr.Port)
 
+	// Our address depends on which one of the remote's we're contacting.
 	if msg.Via == nil {
-		msg.Via = &sip.Via{Host: lhost}
+		msg.Via = &sip.Via{}
+		dls.via = msg.Via
+	}
+	if msg.Via == dls.via {
+		msg.Via.Host = lhost
 	}
 	msg.Via.Port = lport
 	branch := msg.Via.Param.Get("branch")
@@ -254,7 +263,11 @@ func (dls *dialogState) populate(msg *sip.Msg) {
 	}
 
 	if msg.Contact == nil {
-		msg.Contact = &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: lhost}}
+		msg.Contact = &sip.Addr{Uri: &sip.URI{Scheme: "sip"}}
+		dls.contact = msg.Contact
+	}
+	if msg.Contact == dls.contact {
+		msg.Contact.Uri.Host = lhost
 	}
 	if dls.csock != nil {
 		msg.Contact.Uri.Port = uint16(dls.csock.LocalAddr().(*net.UDPAddr).Port)
@@ -272,9 +285,15 @@ func (dls *dialogState) populate(msg *sip.Msg) {
 	if msg.Method == sip.MethodInvite {
 		if ms, ok := msg.Payload.(*sdp.SDP); ok {
 			if ms.Addr == "" {
+				dls.sdpAddr = true
+			}
+			if dls.sdpAddr {
 				ms.Addr = lhost
 			}
 			if ms.Origin.Addr == "" {
+				dls.originAddr = true
+			}
+			if dls.originAddr {
 				ms.Origin.Addr = lhost
 			}
 			if ms.Origin.ID == "" {
-- 
2.43.0


From e7d58eda24ef368a1a2fda0cf1618390adaa0a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 27/58] fix: RTP contributing sources and padding were taken
 for audio

---
 rtp/session.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/rtp/session.go b/rtp/session.go
index 7110b20..b97c016 100644
--- a/rtp/session.go
+++ b/rtp/session.go
@@ -217,7 +217,7 @@ func receiver(sock *net.UDPConn, c chan<- *Frame, e chan<- error, r <-chan *Fram
 		// TODO(jart): Packet reordering? Drop duplicate packets?
 		// TODO(jart): DTMF?
 		var phdr Header
-		err = phdr.Read(buf)
+		err = phdr.Read(buf[:amt])
 		if err != nil {
 			// TODO(jart): Best logging strategy?
 			continue
@@ -225,11 +225,12 @@ func receiver(sock *net.UDPConn, c chan<- *Frame, e chan<- error, r <-chan *Fram
 		if phdr.PT != sdp.ULAWCodec.PT {
 			continue
 		}
-		if amt != HeaderSize+160 {
+		audio := payload(&phdr, buf[:amt])
+		if len(audio) != 160 {
 			continue
 		}
 		for n := 0; n < 160; n++ {
-			frame[n] = int16(dsp.UlawToLinear(int64(buf[HeaderSize+n])))
+			frame[n] = int16(dsp.UlawToLinear(int64(audio[n])))
 		}
 		c <- frame
 		frame = <-r
@@ -238,6 +239,24 @@ func receiver(sock *net.UDPConn, c chan<- *Frame, e chan<- error, r <-chan *Fram
 	close(e)
 }
 
+// payload returns what's past the contributing sources and before the padding,
+// or nil if packet is malformed.
+func payload(phdr *Header, packet []byte) []byte {
+	off := HeaderSize + 4*int(packet[0]&mask4)
+	end := len(packet)
+	if phdr.Pad {
+		pad := int(packet[end-1])
+		if pad == 0 {
+			return nil
+		}
+		end -= pad
+	}
+	if off > end {
+		return nil
+	}
+	return packet[off:end]
+}
+
 func Listen(host string) (sock net.PacketConn, err error) {
 	if strings.Contains(host, ":") {
 		return net.ListenPacket("udp", host)
-- 
2.43.0


From 6c7b95d25c992f509a9eae9fcc65464570acfa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:08 +0000
Subject: [PATCH 28/58] fix: responses could be aimed elsewhere with received
 and rport in a request

The transport believed these parameters if the request already had them.
---
 dialog/receiver.go | 43 +++++++++++++++++++------------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/dialog/receiver.go b/dialog/receiver.go
index dbfea39..bc5f389 100644
--- a/dialog/receiver.go
+++ b/dialog/receiver.go
@@ -74,33 +74,28 @@ func addReceived(msg *sip.Msg, addr *net.UDPAddr) {
 	if msg.IsResponse() {
 		return
 	}
-	if int(msg.Via.Port) != addr.Port {
+	host := addr.IP.String()
+	port := strconv.Itoa(addr.Port)
 
-		rport := msg.Via.Param.Get("rport")
-		port := strconv.Itoa(addr.Port)
-
-		if rport == nil {
-			msg.Via.Param = &sip.Param{
-				Name:  "rport",
-				Value: port,
-				Next:  msg.Via.Param,
-			}
-		} else {
+	// implied rport is 5060, but some NAT will use another port,we use real port instead
+	if int(msg.Via.Port) != addr.Port || msg.Via.Param.Get("rport") != nil {
+		setViaParam(msg.Via, "rport", port)
+	}
+	if msg.Via.Host != host || msg.Via.Param.Get("received") != nil {
+		setViaParam(msg.Via, "received", host)
+	}
+}
 
-			// implied rport is 5060, but some NAT will use another port,we use real port instead
-			if len(rport.Value) == 0 {
-				rport.Value = port
-			}
-		}
+// Sets parameter, replacing whatever the sender of the message put there.
+func setViaParam(via *sip.Via, name, value string) {
+	if param := via.Param.Get(name); param != nil {
+		param.Value = value
+		return
 	}
-	if msg.Via.Host != addr.IP.String() {
-		if msg.Via.Param.Get("received") == nil {
-			msg.Via.Param = &sip.Param{
-				Name:  "received",
-				Value: addr.IP.String(),
-				Next:  msg.Via.Param,
-			}
-		}
+	via.Param = &sip.Param{
+		Name:  name,
+		Value: value,
+		Next:  via.Param,
 	}
 }
 
-- 
2.43.0


From 835b4712e6f096204f2a7756b156561b01adba61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:08 +0000
Subject: [PATCH 29/58] fix: out of range rport sent responses to a wrong port

---
 dialog/route.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/route.go b/dialog/route.go
index b88d4f8..5552030 100644
--- a/dialog/route.go
+++ b/dialog/route.go
@@ -95,7 +95,7 @@ func RouteMessage(via *sip.Via, contact *sip.Addr, msg *sip.Msg) (host string, p
 		// we should use rport as real port in request-line
 		if rport := msg.Via.Param.Get("rport"); rport != nil && len(rport.Value) > 0 {
 
-			i, err := strconv.Atoi(rport.Value)
+			i, err := strconv.ParseUint(rport.Value, 10, 16)
 			if err != nil {
 				return "", 0, err
 			}
-- 
2.43.0


From e7c7f6244b5d69e0f075270da980f867eeec93ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:09 +0000
Subject: [PATCH 30/58] fix: SIP messages larger than 2048 bytes were dropped

---
 dialog/receiver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/receiver.go b/dialog/receiver.go
index bc5f389..dfc9b0c 100644
--- a/dialog/receiver.go
+++ b/dialog/receiver.go
@@ -24,7 +24,7 @@ import (
 )
 
 func ReceiveMessages(sock *net.UDPConn, c chan<- *sip.Msg, e chan<- error) {
-	buf := make([]byte, 2048)
+	buf := make([]byte, 65536)
 	laddr := sock.LocalAddr().(*net.UDPAddr)
 	lhost := laddr.IP.String()
 	lport := uint16(laddr.Port)
-- 
2.43.0


From 4830c909c630ad2e510f3fc412b6faaa0030c4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:36 +0000
Subject: [PATCH 31/58] fix: responses having Max-Forwards were taken for
 looping requests

---
 dialog/transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/transport.go b/dialog/transport.go
index 81066ad..1b86455 100755
--- a/dialog/transport.go
+++ b/dialog/transport.go
@@ -87,7 +87,7 @@ func (tp *Transport) Send(msg *sip.Msg) error {
 	if err != nil {
 		return err
 	}
-	if msg.MaxForwards == 1 {
+	if msg.MaxForwards == 1 && !msg.IsResponse() {
 		return errors.New("Local froot loop detected")
 	}
 	if msg.MaxForwards > 0 {
-- 
2.43.0


From d0ec9933702e8356508bf9b031c1cdce3ad48e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:02 +0000
Subject: [PATCH 32/58] fix: messages with an extension header named like the
 start of a standard one were dropped

E.g. d, the compact form of Request-Disposition.
---
 sip/msg_parse.go | 4 ++--
 sip/sip.rl       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index cd61c46..cb963dd 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -1693,7 +1693,7 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 tr416:
 //line sip.rl:171
 
-	p--
+	p = ( mark) - 1
 
 	{goto st273 }
 
@@ -17841,7 +17841,7 @@ tr753:
 		case 281, 282, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 370, 371, 372, 373, 374, 375, 385, 386, 387, 388, 389, 390, 391, 392, 393, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 441, 442, 443, 444, 445, 446, 447, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 512, 513, 514, 515, 516, 517, 518, 519, 520, 521, 522, 523, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 543, 544, 545, 546, 547, 548, 549, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 728, 729, 730, 731, 732, 733, 734, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756, 757, 758, 759, 760, 761, 762, 763:
 //line sip.rl:171
 
-	p--
+	p = ( mark) - 1
 
 	{goto st273 }
 
diff --git a/sip/sip.rl b/sip/sip.rl
index 8e4a727..0e92dde 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -169,7 +169,7 @@ action ViaParam {
 }
 
 action gxh {
-	fhold;
+	fexec mark;
 	fgoto xheader;
 }
 
-- 
2.43.0


From 6ad168ce4f17930e69fcfdd7f90c30c77e8c9886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:17 +0000
Subject: [PATCH 33/58] fix: repeated headers lost all but their last value

---
 sip/msg_parse.go | 13 ++++++++++++-
 sip/msg_parse.rl | 11 +++++++++++
 sip/sip.rl       |  2 +-
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index cb963dd..7c76b1a 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -9593,7 +9593,7 @@ tr403:
 {
 	b := data[mark:p - 1]
 	if value != nil {
-		*value = string(b)
+		*value = joinValues(*value, string(b))
 	} else {
 		msg.XHeader = &XHeader{name, b, msg.XHeader}
 	}
@@ -17890,3 +17890,14 @@ func lastAddr(addrp **Addr) **Addr {
 		return lastAddr(&(*addrp).Next)
 	}
 }
+
+// RFC3261 7.3.1: Repeating a header is the same as separating with commas.
+func joinValues(a, b string) string {
+	if a == "" {
+		return b
+	}
+	if b == "" {
+		return a
+	}
+	return a + ", " + b
+}
diff --git a/sip/msg_parse.rl b/sip/msg_parse.rl
index 123e941..1b50942 100644
--- a/sip/msg_parse.rl
+++ b/sip/msg_parse.rl
@@ -88,3 +88,14 @@ func lastAddr(addrp **Addr) **Addr {
 		return lastAddr(&(*addrp).Next)
 	}
 }
+
+// RFC3261 7.3.1: Repeating a header is the same as separating with commas.
+func joinValues(a, b string) string {
+	if a == "" {
+		return b
+	}
+	if b == "" {
+		return a
+	}
+	return a + ", " + b
+}
diff --git a/sip/sip.rl b/sip/sip.rl
index 0e92dde..7e79b4d 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -180,7 +180,7 @@ action name {
 action value {{
 	b := data[mark:p - 1]
 	if value != nil {
-		*value = string(b)
+		*value = joinValues(*value, string(b))
 	} else {
 		msg.XHeader = &XHeader{name, b, msg.XHeader}
 	}
-- 
2.43.0


From 0195463fc4c97e0f5ea6c6bb027d59f32b885118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:39 +0000
Subject: [PATCH 34/58] fix: payload of messages without Content-Length was
 lost

---
 sip/msg_parse.go | 6 +++++-
 sip/msg_parse.rl | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index 7c76b1a..e47ed4b 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -62,7 +62,7 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 	buf := make([]byte, len(data))
 	amt := 0
 	mark := 0
-	clen := 0
+	clen := -1
 	ctype := ""
 	var name string
 	var hex byte
@@ -17862,6 +17862,10 @@ tr753:
 		}
 	}
 
+	if clen < 0 && ctype != "" {
+		clen = len(data) - p // RFC3261 18.3: Body goes on until end of packet.
+	}
+
 	if clen > 0 {
 		if clen != len(data) - p {
 			return nil, errors.New(fmt.Sprintf("Content-Length incorrect: %d != %d", clen, len(data) - p))
diff --git a/sip/msg_parse.rl b/sip/msg_parse.rl
index 1b50942..061922c 100644
--- a/sip/msg_parse.rl
+++ b/sip/msg_parse.rl
@@ -39,7 +39,7 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 	buf := make([]byte, len(data))
 	amt := 0
 	mark := 0
-	clen := 0
+	clen := -1
 	ctype := ""
 	var name string
 	var hex byte
@@ -60,6 +60,10 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		}
 	}
 
+	if clen < 0 && ctype != "" {
+		clen = len(data) - p // RFC3261 18.3: Body goes on until end of packet.
+	}
+
 	if clen > 0 {
 		if clen != len(data) - p {
 			return nil, errors.New(fmt.Sprintf("Content-Length incorrect: %d != %d", clen, len(data) - p))
-- 
2.43.0


From bdc9e627844ca61711616ac49225fbcc90fb5aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:20 +0000
Subject: [PATCH 35/58] fix: responses with an empty reason phrase were dropped

Parser was regenerated with Ragel 6.10, which renumbers its states.
---
 sip/msg_parse.go | 3311 +++++++++++++++++++++++-----------------------
 sip/sip.rl       |    2 +-
 2 files changed, 1666 insertions(+), 1647 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index e47ed4b..730def9 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -1690,7 +1690,7 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 			goto tr0
 		}
 		goto st0
-tr416:
+tr417:
 //line sip.rl:171
 
 	p = ( mark) - 1
@@ -1889,7 +1889,17 @@ tr14:
 			goto tr14
 		}
 		goto st0
-tr42:
+tr35:
+//line sip.rl:88
+
+	amt = 0
+
+//line sip.rl:133
+
+	msg.Phrase = string(buf[0:amt])
+
+	goto st13
+tr43:
 //line sip.rl:133
 
 	msg.Phrase = string(buf[0:amt])
@@ -1900,7 +1910,7 @@ tr42:
 			goto _test_eof13
 		}
 	st_case_13:
-//line msg_parse.go:1895
+//line msg_parse.go:1905
 		if data[p] == 10 {
 			goto tr16
 		}
@@ -1914,7 +1924,7 @@ tr16:
 			goto _test_eof765
 		}
 	st_case_765:
-//line msg_parse.go:1909
+//line msg_parse.go:1919
 		goto st0
 tr2:
 //line sip.rl:80
@@ -1927,7 +1937,7 @@ tr2:
 			goto _test_eof14
 		}
 	st_case_14:
-//line msg_parse.go:1922
+//line msg_parse.go:1932
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -2064,7 +2074,7 @@ tr20:
 			goto _test_eof18
 		}
 	st_case_18:
-//line msg_parse.go:2059
+//line msg_parse.go:2069
 		if data[p] == 46 {
 			goto st19
 		}
@@ -2092,7 +2102,7 @@ tr22:
 			goto _test_eof20
 		}
 	st_case_20:
-//line msg_parse.go:2087
+//line msg_parse.go:2097
 		if data[p] == 32 {
 			goto st21
 		}
@@ -2120,7 +2130,7 @@ tr24:
 			goto _test_eof22
 		}
 	st_case_22:
-//line msg_parse.go:2115
+//line msg_parse.go:2125
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr25
 		}
@@ -2136,7 +2146,7 @@ tr25:
 			goto _test_eof23
 		}
 	st_case_23:
-//line msg_parse.go:2131
+//line msg_parse.go:2141
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr26
 		}
@@ -2152,7 +2162,7 @@ tr26:
 			goto _test_eof24
 		}
 	st_case_24:
-//line msg_parse.go:2147
+//line msg_parse.go:2157
 		if data[p] == 32 {
 			goto st25
 		}
@@ -2162,7 +2172,14 @@ tr26:
 			goto _test_eof25
 		}
 	st_case_25:
-		switch data[p] {
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		switch _widec {
 		case 9:
 			goto tr28
 		case 37:
@@ -2173,39 +2190,41 @@ tr26:
 			goto tr28
 		case 126:
 			goto tr28
+		case 269:
+			goto tr35
 		}
 		switch {
-		case data[p] < 192:
+		case _widec < 192:
 			switch {
-			case data[p] < 36:
-				if 32 <= data[p] && data[p] <= 33 {
+			case _widec < 36:
+				if 32 <= _widec && _widec <= 33 {
 					goto tr28
 				}
-			case data[p] > 59:
+			case _widec > 59:
 				switch {
-				case data[p] > 90:
-					if 97 <= data[p] && data[p] <= 122 {
+				case _widec > 90:
+					if 97 <= _widec && _widec <= 122 {
 						goto tr28
 					}
-				case data[p] >= 63:
+				case _widec >= 63:
 					goto tr28
 				}
 			default:
 				goto tr28
 			}
-		case data[p] > 223:
+		case _widec > 223:
 			switch {
-			case data[p] < 240:
-				if 224 <= data[p] && data[p] <= 239 {
+			case _widec < 240:
+				if 224 <= _widec && _widec <= 239 {
 					goto tr31
 				}
-			case data[p] > 247:
+			case _widec > 247:
 				switch {
-				case data[p] > 251:
-					if 252 <= data[p] && data[p] <= 253 {
+				case _widec > 251:
+					if 252 <= _widec && _widec <= 253 {
 						goto tr34
 					}
-				case data[p] >= 248:
+				case _widec >= 248:
 					goto tr33
 				}
 			default:
@@ -2226,14 +2245,14 @@ tr28:
 	amt++
 
 	goto st26
-tr35:
+tr36:
 //line sip.rl:92
 
 	buf[amt] = data[p]
 	amt++
 
 	goto st26
-tr44:
+tr45:
 //line sip.rl:106
 
 	hex += unhex(data[p])
@@ -2246,7 +2265,7 @@ tr44:
 			goto _test_eof26
 		}
 	st_case_26:
-//line msg_parse.go:2241
+//line msg_parse.go:2260
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2256,57 +2275,57 @@ tr44:
 		}
 		switch _widec {
 		case 9:
-			goto tr35
+			goto tr36
 		case 37:
 			goto st27
 		case 61:
-			goto tr35
+			goto tr36
 		case 95:
-			goto tr35
+			goto tr36
 		case 126:
-			goto tr35
+			goto tr36
 		case 269:
-			goto tr42
+			goto tr43
 		}
 		switch {
 		case _widec < 192:
 			switch {
 			case _widec < 36:
 				if 32 <= _widec && _widec <= 33 {
-					goto tr35
+					goto tr36
 				}
 			case _widec > 59:
 				switch {
 				case _widec > 90:
 					if 97 <= _widec && _widec <= 122 {
-						goto tr35
+						goto tr36
 					}
 				case _widec >= 63:
-					goto tr35
+					goto tr36
 				}
 			default:
-				goto tr35
+				goto tr36
 			}
 		case _widec > 223:
 			switch {
 			case _widec < 240:
 				if 224 <= _widec && _widec <= 239 {
-					goto tr38
+					goto tr39
 				}
 			case _widec > 247:
 				switch {
 				case _widec > 251:
 					if 252 <= _widec && _widec <= 253 {
-						goto tr41
+						goto tr42
 					}
 				case _widec >= 248:
-					goto tr40
+					goto tr41
 				}
 			default:
-				goto tr39
+				goto tr40
 			}
 		default:
-			goto tr37
+			goto tr38
 		}
 		goto st0
 tr29:
@@ -2320,21 +2339,21 @@ tr29:
 			goto _test_eof27
 		}
 	st_case_27:
-//line msg_parse.go:2315
+//line msg_parse.go:2334
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
-				goto tr43
+				goto tr44
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr43
+				goto tr44
 			}
 		default:
-			goto tr43
+			goto tr44
 		}
 		goto st0
-tr43:
+tr44:
 //line sip.rl:102
 
 	hex = unhex(data[p]) * 16
@@ -2345,18 +2364,18 @@ tr43:
 			goto _test_eof28
 		}
 	st_case_28:
-//line msg_parse.go:2340
+//line msg_parse.go:2359
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
-				goto tr44
+				goto tr45
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr44
+				goto tr45
 			}
 		default:
-			goto tr44
+			goto tr45
 		}
 		goto st0
 tr30:
@@ -2370,7 +2389,7 @@ tr30:
 	amt++
 
 	goto st29
-tr37:
+tr38:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -2382,9 +2401,9 @@ tr37:
 			goto _test_eof29
 		}
 	st_case_29:
-//line msg_parse.go:2377
+//line msg_parse.go:2396
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr35
+			goto tr36
 		}
 		goto st0
 tr31:
@@ -2398,7 +2417,7 @@ tr31:
 	amt++
 
 	goto st30
-tr38:
+tr39:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -2410,9 +2429,9 @@ tr38:
 			goto _test_eof30
 		}
 	st_case_30:
-//line msg_parse.go:2405
+//line msg_parse.go:2424
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr37
+			goto tr38
 		}
 		goto st0
 tr32:
@@ -2426,7 +2445,7 @@ tr32:
 	amt++
 
 	goto st31
-tr39:
+tr40:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -2438,9 +2457,9 @@ tr39:
 			goto _test_eof31
 		}
 	st_case_31:
-//line msg_parse.go:2433
+//line msg_parse.go:2452
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr38
+			goto tr39
 		}
 		goto st0
 tr33:
@@ -2454,7 +2473,7 @@ tr33:
 	amt++
 
 	goto st32
-tr40:
+tr41:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -2466,9 +2485,9 @@ tr40:
 			goto _test_eof32
 		}
 	st_case_32:
-//line msg_parse.go:2461
+//line msg_parse.go:2480
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr39
+			goto tr40
 		}
 		goto st0
 tr34:
@@ -2482,7 +2501,7 @@ tr34:
 	amt++
 
 	goto st33
-tr41:
+tr42:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -2494,9 +2513,9 @@ tr41:
 			goto _test_eof33
 		}
 	st_case_33:
-//line msg_parse.go:2489
+//line msg_parse.go:2508
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr40
+			goto tr41
 		}
 		goto st0
 	st34:
@@ -2506,38 +2525,38 @@ tr41:
 	st_case_34:
 		switch data[p] {
 		case 33:
-			goto tr45
+			goto tr46
 		case 37:
-			goto tr45
+			goto tr46
 		case 39:
-			goto tr45
+			goto tr46
 		case 126:
-			goto tr45
+			goto tr46
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr45
+					goto tr46
 				}
 			case data[p] >= 42:
-				goto tr45
+				goto tr46
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr45
+					goto tr46
 				}
 			case data[p] >= 65:
-				goto tr45
+				goto tr46
 			}
 		default:
-			goto tr45
+			goto tr46
 		}
 		goto st0
-tr45:
+tr46:
 //line sip.rl:80
 
 	mark = p
@@ -2548,7 +2567,7 @@ tr45:
 			goto _test_eof35
 		}
 	st_case_35:
-//line msg_parse.go:2543
+//line msg_parse.go:2562
 		switch data[p] {
 		case 33:
 			goto st35
@@ -2631,9 +2650,9 @@ tr45:
 		}
 		switch _widec {
 		case 9:
-			goto tr49
+			goto tr50
 		case 32:
-			goto tr49
+			goto tr50
 		case 33:
 			goto st37
 		case 37:
@@ -2641,13 +2660,13 @@ tr45:
 		case 39:
 			goto st37
 		case 59:
-			goto tr50
+			goto tr51
 		case 126:
 			goto st37
 		case 269:
-			goto tr51
-		case 525:
 			goto tr52
+		case 525:
+			goto tr53
 		}
 		switch {
 		case _widec < 48:
@@ -2672,7 +2691,7 @@ tr45:
 			goto st37
 		}
 		goto st0
-tr49:
+tr50:
 //line sip.rl:228
 
 	ctype = string(data[mark:p])
@@ -2683,7 +2702,7 @@ tr49:
 			goto _test_eof38
 		}
 	st_case_38:
-//line msg_parse.go:2678
+//line msg_parse.go:2697
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2702,7 +2721,7 @@ tr49:
 			goto st45
 		}
 		goto st0
-tr50:
+tr51:
 //line sip.rl:228
 
 	ctype = string(data[mark:p])
@@ -2713,7 +2732,7 @@ tr50:
 			goto _test_eof39
 		}
 	st_case_39:
-//line msg_parse.go:2708
+//line msg_parse.go:2727
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2944,7 +2963,7 @@ tr50:
 			goto st43
 		}
 		goto st0
-tr51:
+tr52:
 //line sip.rl:228
 
 	ctype = string(data[mark:p])
@@ -2955,12 +2974,12 @@ tr51:
 			goto _test_eof44
 		}
 	st_case_44:
-//line msg_parse.go:2950
+//line msg_parse.go:2969
 		if data[p] == 10 {
-			goto tr65
+			goto tr66
 		}
 		goto st0
-tr65:
+tr66:
 //line sip.rl:257
  {goto st280 } 
 	goto st766
@@ -2969,9 +2988,9 @@ tr65:
 			goto _test_eof766
 		}
 	st_case_766:
-//line msg_parse.go:2964
+//line msg_parse.go:2983
 		goto st0
-tr52:
+tr53:
 //line sip.rl:228
 
 	ctype = string(data[mark:p])
@@ -2982,7 +3001,7 @@ tr52:
 			goto _test_eof45
 		}
 	st_case_45:
-//line msg_parse.go:2977
+//line msg_parse.go:2996
 		if data[p] == 10 {
 			goto st46
 		}
@@ -3027,42 +3046,42 @@ tr52:
 		}
 		switch _widec {
 		case 9:
-			goto tr68
-		case 34:
 			goto tr69
-		case 92:
+		case 34:
 			goto tr70
+		case 92:
+			goto tr71
 		case 525:
-			goto tr76
+			goto tr77
 		}
 		switch {
 		case _widec < 224:
 			switch {
 			case _widec > 126:
 				if 192 <= _widec && _widec <= 223 {
-					goto tr71
+					goto tr72
 				}
 			case _widec >= 32:
-				goto tr68
+				goto tr69
 			}
 		case _widec > 239:
 			switch {
 			case _widec < 248:
 				if 240 <= _widec && _widec <= 247 {
-					goto tr73
+					goto tr74
 				}
 			case _widec > 251:
 				if 252 <= _widec && _widec <= 253 {
-					goto tr75
+					goto tr76
 				}
 			default:
-				goto tr74
+				goto tr75
 			}
 		default:
-			goto tr72
+			goto tr73
 		}
 		goto st0
-tr68:
+tr69:
 //line sip.rl:88
 
 	amt = 0
@@ -3073,7 +3092,7 @@ tr68:
 	amt++
 
 	goto st49
-tr77:
+tr78:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -3085,7 +3104,7 @@ tr77:
 			goto _test_eof49
 		}
 	st_case_49:
-//line msg_parse.go:3080
+//line msg_parse.go:3099
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3095,42 +3114,42 @@ tr77:
 		}
 		switch _widec {
 		case 9:
-			goto tr77
+			goto tr78
 		case 34:
 			goto st50
 		case 92:
 			goto st51
 		case 525:
-			goto tr85
+			goto tr86
 		}
 		switch {
 		case _widec < 224:
 			switch {
 			case _widec > 126:
 				if 192 <= _widec && _widec <= 223 {
-					goto tr80
+					goto tr81
 				}
 			case _widec >= 32:
-				goto tr77
+				goto tr78
 			}
 		case _widec > 239:
 			switch {
 			case _widec < 248:
 				if 240 <= _widec && _widec <= 247 {
-					goto tr82
+					goto tr83
 				}
 			case _widec > 251:
 				if 252 <= _widec && _widec <= 253 {
-					goto tr84
+					goto tr85
 				}
 			default:
-				goto tr83
+				goto tr84
 			}
 		default:
-			goto tr81
+			goto tr82
 		}
 		goto st0
-tr69:
+tr70:
 //line sip.rl:88
 
 	amt = 0
@@ -3141,7 +3160,7 @@ tr69:
 			goto _test_eof50
 		}
 	st_case_50:
-//line msg_parse.go:3136
+//line msg_parse.go:3155
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3162,7 +3181,7 @@ tr69:
 			goto st45
 		}
 		goto st0
-tr70:
+tr71:
 //line sip.rl:88
 
 	amt = 0
@@ -3173,21 +3192,21 @@ tr70:
 			goto _test_eof51
 		}
 	st_case_51:
-//line msg_parse.go:3168
+//line msg_parse.go:3187
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
-				goto tr77
+				goto tr78
 			}
 		case data[p] > 12:
 			if 14 <= data[p] && data[p] <= 127 {
-				goto tr77
+				goto tr78
 			}
 		default:
-			goto tr77
+			goto tr78
 		}
 		goto st0
-tr71:
+tr72:
 //line sip.rl:88
 
 	amt = 0
@@ -3198,7 +3217,7 @@ tr71:
 	amt++
 
 	goto st52
-tr80:
+tr81:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -3210,12 +3229,12 @@ tr80:
 			goto _test_eof52
 		}
 	st_case_52:
-//line msg_parse.go:3205
+//line msg_parse.go:3224
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr77
+			goto tr78
 		}
 		goto st0
-tr72:
+tr73:
 //line sip.rl:88
 
 	amt = 0
@@ -3226,7 +3245,7 @@ tr72:
 	amt++
 
 	goto st53
-tr81:
+tr82:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -3238,12 +3257,12 @@ tr81:
 			goto _test_eof53
 		}
 	st_case_53:
-//line msg_parse.go:3233
+//line msg_parse.go:3252
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr80
+			goto tr81
 		}
 		goto st0
-tr73:
+tr74:
 //line sip.rl:88
 
 	amt = 0
@@ -3254,7 +3273,7 @@ tr73:
 	amt++
 
 	goto st54
-tr82:
+tr83:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -3266,12 +3285,12 @@ tr82:
 			goto _test_eof54
 		}
 	st_case_54:
-//line msg_parse.go:3261
+//line msg_parse.go:3280
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr81
+			goto tr82
 		}
 		goto st0
-tr74:
+tr75:
 //line sip.rl:88
 
 	amt = 0
@@ -3282,7 +3301,7 @@ tr74:
 	amt++
 
 	goto st55
-tr83:
+tr84:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -3294,12 +3313,12 @@ tr83:
 			goto _test_eof55
 		}
 	st_case_55:
-//line msg_parse.go:3289
+//line msg_parse.go:3308
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr82
+			goto tr83
 		}
 		goto st0
-tr75:
+tr76:
 //line sip.rl:88
 
 	amt = 0
@@ -3310,7 +3329,7 @@ tr75:
 	amt++
 
 	goto st56
-tr84:
+tr85:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -3322,12 +3341,12 @@ tr84:
 			goto _test_eof56
 		}
 	st_case_56:
-//line msg_parse.go:3317
+//line msg_parse.go:3336
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr83
+			goto tr84
 		}
 		goto st0
-tr76:
+tr77:
 //line sip.rl:88
 
 	amt = 0
@@ -3338,7 +3357,7 @@ tr76:
 	amt++
 
 	goto st57
-tr85:
+tr86:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -3350,12 +3369,12 @@ tr85:
 			goto _test_eof57
 		}
 	st_case_57:
-//line msg_parse.go:3345
+//line msg_parse.go:3364
 		if data[p] == 10 {
-			goto tr86
+			goto tr87
 		}
 		goto st0
-tr86:
+tr87:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -3367,12 +3386,12 @@ tr86:
 			goto _test_eof58
 		}
 	st_case_58:
-//line msg_parse.go:3362
+//line msg_parse.go:3381
 		switch data[p] {
 		case 9:
-			goto tr77
+			goto tr78
 		case 32:
-			goto tr77
+			goto tr78
 		}
 		goto st0
 	st59:
@@ -3545,38 +3564,38 @@ tr86:
 	st_case_68:
 		switch data[p] {
 		case 33:
-			goto tr93
+			goto tr94
 		case 37:
-			goto tr93
+			goto tr94
 		case 39:
-			goto tr93
+			goto tr94
 		case 126:
-			goto tr93
+			goto tr94
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr93
+					goto tr94
 				}
 			case data[p] >= 42:
-				goto tr93
+				goto tr94
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr93
+					goto tr94
 				}
 			case data[p] >= 65:
-				goto tr93
+				goto tr94
 			}
 		default:
-			goto tr93
+			goto tr94
 		}
 		goto st0
-tr93:
+tr94:
 //line sip.rl:88
 
 	amt = 0
@@ -3591,7 +3610,7 @@ tr93:
 			goto _test_eof69
 		}
 	st_case_69:
-//line msg_parse.go:3586
+//line msg_parse.go:3605
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3601,9 +3620,9 @@ tr93:
 		}
 		switch _widec {
 		case 9:
-			goto tr94
+			goto tr95
 		case 32:
-			goto tr94
+			goto tr95
 		case 33:
 			goto st69
 		case 37:
@@ -3611,17 +3630,17 @@ tr93:
 		case 39:
 			goto st69
 		case 44:
-			goto tr96
-		case 59:
 			goto tr97
-		case 61:
+		case 59:
 			goto tr98
+		case 61:
+			goto tr99
 		case 126:
 			goto st69
 		case 269:
-			goto tr99
-		case 525:
 			goto tr100
+		case 525:
+			goto tr101
 		}
 		switch {
 		case _widec < 48:
@@ -3641,7 +3660,7 @@ tr93:
 			goto st69
 		}
 		goto st0
-tr94:
+tr95:
 //line sip.rl:176
 
 	name = string(data[mark:p])
@@ -3652,7 +3671,7 @@ tr94:
 			goto _test_eof70
 		}
 	st_case_70:
-//line msg_parse.go:3647
+//line msg_parse.go:3666
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3675,7 +3694,7 @@ tr94:
 			goto st100
 		}
 		goto st0
-tr96:
+tr97:
 //line sip.rl:176
 
 	name = string(data[mark:p])
@@ -3686,7 +3705,7 @@ tr96:
 			goto _test_eof71
 		}
 	st_case_71:
-//line msg_parse.go:3681
+//line msg_parse.go:3700
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3700,20 +3719,20 @@ tr96:
 		case 32:
 			goto st71
 		case 269:
-			goto tr106
+			goto tr107
 		case 525:
 			goto st72
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr106
+				goto tr107
 			}
 		default:
-			goto tr106
+			goto tr107
 		}
 		goto st0
-tr106:
+tr107:
 //line sip.rl:167
 
 	via.Param = &Param{name, string(buf[0:amt]), via.Param}
@@ -3736,7 +3755,7 @@ tr106:
 //line sip.rl:259
  {goto st103 } 
 	goto st767
-tr110:
+tr111:
 //line sip.rl:167
 
 	via.Param = &Param{name, string(buf[0:amt]), via.Param}
@@ -3753,7 +3772,7 @@ tr110:
 //line sip.rl:260
  {goto st68 } 
 	goto st767
-tr122:
+tr123:
 //line sip.rl:167
 
 	via.Param = &Param{name, string(buf[0:amt]), via.Param}
@@ -3772,7 +3791,7 @@ tr122:
 			goto _test_eof767
 		}
 	st_case_767:
-//line msg_parse.go:3767
+//line msg_parse.go:3786
 		goto st0
 	st72:
 		if p++; p == pe {
@@ -3806,8 +3825,8 @@ tr122:
 		case 32:
 			goto st74
 		}
-		goto tr106
-tr97:
+		goto tr107
+tr98:
 //line sip.rl:176
 
 	name = string(data[mark:p])
@@ -3818,7 +3837,7 @@ tr97:
 			goto _test_eof75
 		}
 	st_case_75:
-//line msg_parse.go:3813
+//line msg_parse.go:3832
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3832,17 +3851,17 @@ tr97:
 		case 32:
 			goto st75
 		case 269:
-			goto tr110
+			goto tr111
 		case 525:
 			goto st76
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr110
+				goto tr111
 			}
 		default:
-			goto tr110
+			goto tr111
 		}
 		goto st0
 	st76:
@@ -3877,8 +3896,8 @@ tr97:
 		case 32:
 			goto st78
 		}
-		goto tr110
-tr98:
+		goto tr111
+tr99:
 //line sip.rl:176
 
 	name = string(data[mark:p])
@@ -3889,7 +3908,7 @@ tr98:
 			goto _test_eof79
 		}
 	st_case_79:
-//line msg_parse.go:3884
+//line msg_parse.go:3903
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3903,17 +3922,17 @@ tr98:
 		case 32:
 			goto st79
 		case 33:
-			goto tr114
+			goto tr115
 		case 34:
 			goto st86
 		case 37:
-			goto tr114
+			goto tr115
 		case 39:
-			goto tr114
+			goto tr115
 		case 93:
-			goto tr114
+			goto tr115
 		case 126:
-			goto tr114
+			goto tr115
 		case 525:
 			goto st97
 		}
@@ -3922,25 +3941,25 @@ tr98:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto tr114
+					goto tr115
 				}
 			case _widec >= 42:
-				goto tr114
+				goto tr115
 			}
 		case _widec > 58:
 			switch {
 			case _widec > 91:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr114
+					goto tr115
 				}
 			case _widec >= 65:
-				goto tr114
+				goto tr115
 			}
 		default:
-			goto tr114
+			goto tr115
 		}
 		goto st0
-tr114:
+tr115:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -3952,7 +3971,7 @@ tr114:
 			goto _test_eof80
 		}
 	st_case_80:
-//line msg_parse.go:3947
+//line msg_parse.go:3966
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3966,19 +3985,19 @@ tr114:
 		case 32:
 			goto st81
 		case 33:
-			goto tr114
+			goto tr115
 		case 37:
-			goto tr114
+			goto tr115
 		case 39:
-			goto tr114
+			goto tr115
 		case 44:
 			goto st71
 		case 59:
 			goto st75
 		case 93:
-			goto tr114
+			goto tr115
 		case 126:
-			goto tr114
+			goto tr115
 		case 269:
 			goto st85
 		case 525:
@@ -3987,19 +4006,19 @@ tr114:
 		switch {
 		case _widec < 48:
 			if 42 <= _widec && _widec <= 46 {
-				goto tr114
+				goto tr115
 			}
 		case _widec > 58:
 			switch {
 			case _widec > 91:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr114
+					goto tr115
 				}
 			case _widec >= 65:
-				goto tr114
+				goto tr115
 			}
 		default:
-			goto tr114
+			goto tr115
 		}
 		goto st0
 	st81:
@@ -4064,7 +4083,7 @@ tr114:
 			goto st75
 		}
 		goto st0
-tr99:
+tr100:
 //line sip.rl:176
 
 	name = string(data[mark:p])
@@ -4075,9 +4094,9 @@ tr99:
 			goto _test_eof85
 		}
 	st_case_85:
-//line msg_parse.go:4070
+//line msg_parse.go:4089
 		if data[p] == 10 {
-			goto tr122
+			goto tr123
 		}
 		goto st0
 	st86:
@@ -4094,42 +4113,42 @@ tr99:
 		}
 		switch _widec {
 		case 9:
-			goto tr123
-		case 34:
 			goto tr124
-		case 92:
+		case 34:
 			goto tr125
+		case 92:
+			goto tr126
 		case 525:
-			goto tr131
+			goto tr132
 		}
 		switch {
 		case _widec < 224:
 			switch {
 			case _widec > 126:
 				if 192 <= _widec && _widec <= 223 {
-					goto tr126
+					goto tr127
 				}
 			case _widec >= 32:
-				goto tr123
+				goto tr124
 			}
 		case _widec > 239:
 			switch {
 			case _widec < 248:
 				if 240 <= _widec && _widec <= 247 {
-					goto tr128
+					goto tr129
 				}
 			case _widec > 251:
 				if 252 <= _widec && _widec <= 253 {
-					goto tr130
+					goto tr131
 				}
 			default:
-				goto tr129
+				goto tr130
 			}
 		default:
-			goto tr127
+			goto tr128
 		}
 		goto st0
-tr123:
+tr124:
 //line sip.rl:88
 
 	amt = 0
@@ -4140,7 +4159,7 @@ tr123:
 	amt++
 
 	goto st87
-tr132:
+tr133:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -4152,7 +4171,7 @@ tr132:
 			goto _test_eof87
 		}
 	st_case_87:
-//line msg_parse.go:4147
+//line msg_parse.go:4166
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4162,42 +4181,42 @@ tr132:
 		}
 		switch _widec {
 		case 9:
-			goto tr132
+			goto tr133
 		case 34:
 			goto st88
 		case 92:
 			goto st89
 		case 525:
-			goto tr140
+			goto tr141
 		}
 		switch {
 		case _widec < 224:
 			switch {
 			case _widec > 126:
 				if 192 <= _widec && _widec <= 223 {
-					goto tr135
+					goto tr136
 				}
 			case _widec >= 32:
-				goto tr132
+				goto tr133
 			}
 		case _widec > 239:
 			switch {
 			case _widec < 248:
 				if 240 <= _widec && _widec <= 247 {
-					goto tr137
+					goto tr138
 				}
 			case _widec > 251:
 				if 252 <= _widec && _widec <= 253 {
-					goto tr139
+					goto tr140
 				}
 			default:
-				goto tr138
+				goto tr139
 			}
 		default:
-			goto tr136
+			goto tr137
 		}
 		goto st0
-tr124:
+tr125:
 //line sip.rl:88
 
 	amt = 0
@@ -4208,7 +4227,7 @@ tr124:
 			goto _test_eof88
 		}
 	st_case_88:
-//line msg_parse.go:4203
+//line msg_parse.go:4222
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4231,7 +4250,7 @@ tr124:
 			goto st82
 		}
 		goto st0
-tr125:
+tr126:
 //line sip.rl:88
 
 	amt = 0
@@ -4242,21 +4261,21 @@ tr125:
 			goto _test_eof89
 		}
 	st_case_89:
-//line msg_parse.go:4237
+//line msg_parse.go:4256
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
-				goto tr132
+				goto tr133
 			}
 		case data[p] > 12:
 			if 14 <= data[p] && data[p] <= 127 {
-				goto tr132
+				goto tr133
 			}
 		default:
-			goto tr132
+			goto tr133
 		}
 		goto st0
-tr126:
+tr127:
 //line sip.rl:88
 
 	amt = 0
@@ -4267,7 +4286,7 @@ tr126:
 	amt++
 
 	goto st90
-tr135:
+tr136:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -4279,12 +4298,12 @@ tr135:
 			goto _test_eof90
 		}
 	st_case_90:
-//line msg_parse.go:4274
+//line msg_parse.go:4293
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr132
+			goto tr133
 		}
 		goto st0
-tr127:
+tr128:
 //line sip.rl:88
 
 	amt = 0
@@ -4295,7 +4314,7 @@ tr127:
 	amt++
 
 	goto st91
-tr136:
+tr137:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -4307,12 +4326,12 @@ tr136:
 			goto _test_eof91
 		}
 	st_case_91:
-//line msg_parse.go:4302
+//line msg_parse.go:4321
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr135
+			goto tr136
 		}
 		goto st0
-tr128:
+tr129:
 //line sip.rl:88
 
 	amt = 0
@@ -4323,7 +4342,7 @@ tr128:
 	amt++
 
 	goto st92
-tr137:
+tr138:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -4335,12 +4354,12 @@ tr137:
 			goto _test_eof92
 		}
 	st_case_92:
-//line msg_parse.go:4330
+//line msg_parse.go:4349
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr136
+			goto tr137
 		}
 		goto st0
-tr129:
+tr130:
 //line sip.rl:88
 
 	amt = 0
@@ -4351,7 +4370,7 @@ tr129:
 	amt++
 
 	goto st93
-tr138:
+tr139:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -4363,12 +4382,12 @@ tr138:
 			goto _test_eof93
 		}
 	st_case_93:
-//line msg_parse.go:4358
+//line msg_parse.go:4377
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr137
+			goto tr138
 		}
 		goto st0
-tr130:
+tr131:
 //line sip.rl:88
 
 	amt = 0
@@ -4379,7 +4398,7 @@ tr130:
 	amt++
 
 	goto st94
-tr139:
+tr140:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -4391,12 +4410,12 @@ tr139:
 			goto _test_eof94
 		}
 	st_case_94:
-//line msg_parse.go:4386
+//line msg_parse.go:4405
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr138
+			goto tr139
 		}
 		goto st0
-tr131:
+tr132:
 //line sip.rl:88
 
 	amt = 0
@@ -4407,7 +4426,7 @@ tr131:
 	amt++
 
 	goto st95
-tr140:
+tr141:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -4419,12 +4438,12 @@ tr140:
 			goto _test_eof95
 		}
 	st_case_95:
-//line msg_parse.go:4414
+//line msg_parse.go:4433
 		if data[p] == 10 {
-			goto tr141
+			goto tr142
 		}
 		goto st0
-tr141:
+tr142:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -4436,12 +4455,12 @@ tr141:
 			goto _test_eof96
 		}
 	st_case_96:
-//line msg_parse.go:4431
+//line msg_parse.go:4450
 		switch data[p] {
 		case 9:
-			goto tr132
+			goto tr133
 		case 32:
-			goto tr132
+			goto tr133
 		}
 		goto st0
 	st97:
@@ -4476,42 +4495,42 @@ tr141:
 		case 32:
 			goto st99
 		case 33:
-			goto tr114
+			goto tr115
 		case 34:
 			goto st86
 		case 37:
-			goto tr114
+			goto tr115
 		case 39:
-			goto tr114
+			goto tr115
 		case 93:
-			goto tr114
+			goto tr115
 		case 126:
-			goto tr114
+			goto tr115
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr114
+					goto tr115
 				}
 			case data[p] >= 42:
-				goto tr114
+				goto tr115
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr114
+					goto tr115
 				}
 			case data[p] >= 65:
-				goto tr114
+				goto tr115
 			}
 		default:
-			goto tr114
+			goto tr115
 		}
 		goto st0
-tr100:
+tr101:
 //line sip.rl:176
 
 	name = string(data[mark:p])
@@ -4522,7 +4541,7 @@ tr100:
 			goto _test_eof100
 		}
 	st_case_100:
-//line msg_parse.go:4517
+//line msg_parse.go:4536
 		if data[p] == 10 {
 			goto st101
 		}
@@ -4564,38 +4583,38 @@ tr100:
 	st_case_103:
 		switch data[p] {
 		case 33:
-			goto tr146
+			goto tr147
 		case 37:
-			goto tr146
+			goto tr147
 		case 39:
-			goto tr146
+			goto tr147
 		case 126:
-			goto tr146
+			goto tr147
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr146
+					goto tr147
 				}
 			case data[p] >= 42:
-				goto tr146
+				goto tr147
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr146
+					goto tr147
 				}
 			case data[p] >= 65:
-				goto tr146
+				goto tr147
 			}
 		default:
-			goto tr146
+			goto tr147
 		}
 		goto st0
-tr146:
+tr147:
 //line sip.rl:80
 
 	mark = p
@@ -4606,7 +4625,7 @@ tr146:
 			goto _test_eof104
 		}
 	st_case_104:
-//line msg_parse.go:4601
+//line msg_parse.go:4620
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4616,9 +4635,9 @@ tr146:
 		}
 		switch _widec {
 		case 9:
-			goto tr147
+			goto tr148
 		case 32:
-			goto tr147
+			goto tr148
 		case 33:
 			goto st104
 		case 37:
@@ -4626,11 +4645,11 @@ tr146:
 		case 39:
 			goto st104
 		case 47:
-			goto tr149
+			goto tr150
 		case 126:
 			goto st104
 		case 525:
-			goto tr150
+			goto tr151
 		}
 		switch {
 		case _widec < 45:
@@ -4650,7 +4669,7 @@ tr146:
 			goto st104
 		}
 		goto st0
-tr147:
+tr148:
 //line sip.rl:147
 
 	via.Protocol = string(data[mark:p])
@@ -4661,7 +4680,7 @@ tr147:
 			goto _test_eof105
 		}
 	st_case_105:
-//line msg_parse.go:4656
+//line msg_parse.go:4675
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4680,7 +4699,7 @@ tr147:
 			goto st150
 		}
 		goto st0
-tr149:
+tr150:
 //line sip.rl:147
 
 	via.Protocol = string(data[mark:p])
@@ -4691,7 +4710,7 @@ tr149:
 			goto _test_eof106
 		}
 	st_case_106:
-//line msg_parse.go:4686
+//line msg_parse.go:4705
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4705,13 +4724,13 @@ tr149:
 		case 32:
 			goto st106
 		case 33:
-			goto tr154
+			goto tr155
 		case 37:
-			goto tr154
+			goto tr155
 		case 39:
-			goto tr154
+			goto tr155
 		case 126:
-			goto tr154
+			goto tr155
 		case 525:
 			goto st147
 		}
@@ -4720,25 +4739,25 @@ tr149:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto tr154
+					goto tr155
 				}
 			case _widec >= 42:
-				goto tr154
+				goto tr155
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr154
+					goto tr155
 				}
 			case _widec >= 65:
-				goto tr154
+				goto tr155
 			}
 		default:
-			goto tr154
+			goto tr155
 		}
 		goto st0
-tr154:
+tr155:
 //line sip.rl:80
 
 	mark = p
@@ -4749,7 +4768,7 @@ tr154:
 			goto _test_eof107
 		}
 	st_case_107:
-//line msg_parse.go:4744
+//line msg_parse.go:4763
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4759,9 +4778,9 @@ tr154:
 		}
 		switch _widec {
 		case 9:
-			goto tr156
+			goto tr157
 		case 32:
-			goto tr156
+			goto tr157
 		case 33:
 			goto st107
 		case 37:
@@ -4769,11 +4788,11 @@ tr154:
 		case 39:
 			goto st107
 		case 47:
-			goto tr158
+			goto tr159
 		case 126:
 			goto st107
 		case 525:
-			goto tr159
+			goto tr160
 		}
 		switch {
 		case _widec < 45:
@@ -4793,7 +4812,7 @@ tr154:
 			goto st107
 		}
 		goto st0
-tr156:
+tr157:
 //line sip.rl:151
 
 	via.Version = string(data[mark:p])
@@ -4804,7 +4823,7 @@ tr156:
 			goto _test_eof108
 		}
 	st_case_108:
-//line msg_parse.go:4799
+//line msg_parse.go:4818
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4823,7 +4842,7 @@ tr156:
 			goto st144
 		}
 		goto st0
-tr158:
+tr159:
 //line sip.rl:151
 
 	via.Version = string(data[mark:p])
@@ -4834,7 +4853,7 @@ tr158:
 			goto _test_eof109
 		}
 	st_case_109:
-//line msg_parse.go:4829
+//line msg_parse.go:4848
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4848,13 +4867,13 @@ tr158:
 		case 32:
 			goto st109
 		case 33:
-			goto tr163
+			goto tr164
 		case 37:
-			goto tr163
+			goto tr164
 		case 39:
-			goto tr163
+			goto tr164
 		case 126:
-			goto tr163
+			goto tr164
 		case 525:
 			goto st141
 		}
@@ -4863,25 +4882,25 @@ tr158:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto tr163
+					goto tr164
 				}
 			case _widec >= 42:
-				goto tr163
+				goto tr164
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr163
+					goto tr164
 				}
 			case _widec >= 65:
-				goto tr163
+				goto tr164
 			}
 		default:
-			goto tr163
+			goto tr164
 		}
 		goto st0
-tr163:
+tr164:
 //line sip.rl:80
 
 	mark = p
@@ -4892,7 +4911,7 @@ tr163:
 			goto _test_eof110
 		}
 	st_case_110:
-//line msg_parse.go:4887
+//line msg_parse.go:4906
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4902,9 +4921,9 @@ tr163:
 		}
 		switch _widec {
 		case 9:
-			goto tr165
+			goto tr166
 		case 32:
-			goto tr165
+			goto tr166
 		case 33:
 			goto st110
 		case 37:
@@ -4914,7 +4933,7 @@ tr163:
 		case 126:
 			goto st110
 		case 525:
-			goto tr167
+			goto tr168
 		}
 		switch {
 		case _widec < 48:
@@ -4939,7 +4958,7 @@ tr163:
 			goto st110
 		}
 		goto st0
-tr165:
+tr166:
 //line sip.rl:155
 
 	via.Transport = string(data[mark:p])
@@ -4950,7 +4969,7 @@ tr165:
 			goto _test_eof111
 		}
 	st_case_111:
-//line msg_parse.go:4945
+//line msg_parse.go:4964
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4971,22 +4990,22 @@ tr165:
 		switch {
 		case _widec < 48:
 			if 45 <= _widec && _widec <= 46 {
-				goto tr169
+				goto tr170
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 97 <= _widec && _widec <= 122 {
-					goto tr169
+					goto tr170
 				}
 			case _widec >= 65:
-				goto tr169
+				goto tr170
 			}
 		default:
-			goto tr169
+			goto tr170
 		}
 		goto st0
-tr169:
+tr170:
 //line sip.rl:80
 
 	mark = p
@@ -4997,7 +5016,7 @@ tr169:
 			goto _test_eof112
 		}
 	st_case_112:
-//line msg_parse.go:4992
+//line msg_parse.go:5011
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5007,19 +5026,19 @@ tr169:
 		}
 		switch _widec {
 		case 9:
-			goto tr172
+			goto tr173
 		case 32:
-			goto tr172
-		case 44:
 			goto tr173
+		case 44:
+			goto tr174
 		case 58:
-			goto tr175
-		case 59:
 			goto tr176
-		case 269:
+		case 59:
 			goto tr177
-		case 525:
+		case 269:
 			goto tr178
+		case 525:
+			goto tr179
 		}
 		switch {
 		case _widec < 48:
@@ -5039,7 +5058,7 @@ tr169:
 			goto st112
 		}
 		goto st0
-tr172:
+tr173:
 //line sip.rl:159
 
 	via.Host = string(data[mark:p])
@@ -5050,7 +5069,7 @@ tr172:
 			goto _test_eof113
 		}
 	st_case_113:
-//line msg_parse.go:5045
+//line msg_parse.go:5064
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5073,7 +5092,7 @@ tr172:
 			goto st132
 		}
 		goto st0
-tr173:
+tr174:
 //line sip.rl:159
 
 	via.Host = string(data[mark:p])
@@ -5084,7 +5103,7 @@ tr173:
 			goto _test_eof114
 		}
 	st_case_114:
-//line msg_parse.go:5079
+//line msg_parse.go:5098
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5098,20 +5117,20 @@ tr173:
 		case 32:
 			goto st114
 		case 269:
-			goto tr184
+			goto tr185
 		case 525:
 			goto st115
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr184
+				goto tr185
 			}
 		default:
-			goto tr184
+			goto tr185
 		}
 		goto st0
-tr184:
+tr185:
 //line sip.rl:141
 
 	*viap = via
@@ -5130,7 +5149,7 @@ tr184:
 //line sip.rl:259
  {goto st103 } 
 	goto st768
-tr193:
+tr194:
 //line sip.rl:72
 
 	p--
@@ -5143,7 +5162,7 @@ tr193:
 //line sip.rl:260
  {goto st68 } 
 	goto st768
-tr199:
+tr200:
 //line sip.rl:141
 
 	*viap = via
@@ -5158,7 +5177,7 @@ tr199:
 			goto _test_eof768
 		}
 	st_case_768:
-//line msg_parse.go:5153
+//line msg_parse.go:5172
 		goto st0
 	st115:
 		if p++; p == pe {
@@ -5192,8 +5211,8 @@ tr199:
 		case 32:
 			goto st117
 		}
-		goto tr184
-tr175:
+		goto tr185
+tr176:
 //line sip.rl:159
 
 	via.Host = string(data[mark:p])
@@ -5204,7 +5223,7 @@ tr175:
 			goto _test_eof118
 		}
 	st_case_118:
-//line msg_parse.go:5199
+//line msg_parse.go:5218
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5221,10 +5240,10 @@ tr175:
 			goto st129
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr188
+			goto tr189
 		}
 		goto st0
-tr188:
+tr189:
 //line sip.rl:163
 
 	via.Port = via.Port * 10 + (uint16(data[p]) - 0x30)
@@ -5235,7 +5254,7 @@ tr188:
 			goto _test_eof119
 		}
 	st_case_119:
-//line msg_parse.go:5230
+//line msg_parse.go:5249
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5258,7 +5277,7 @@ tr188:
 			goto st125
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr188
+			goto tr189
 		}
 		goto st0
 	st120:
@@ -5286,7 +5305,7 @@ tr188:
 			goto st125
 		}
 		goto st0
-tr176:
+tr177:
 //line sip.rl:159
 
 	via.Host = string(data[mark:p])
@@ -5297,7 +5316,7 @@ tr176:
 			goto _test_eof121
 		}
 	st_case_121:
-//line msg_parse.go:5292
+//line msg_parse.go:5311
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5311,17 +5330,17 @@ tr176:
 		case 32:
 			goto st121
 		case 269:
-			goto tr193
+			goto tr194
 		case 525:
 			goto st122
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr193
+				goto tr194
 			}
 		default:
-			goto tr193
+			goto tr194
 		}
 		goto st0
 	st122:
@@ -5356,7 +5375,7 @@ tr176:
 		case 32:
 			goto st124
 		}
-		goto tr193
+		goto tr194
 	st125:
 		if p++; p == pe {
 			goto _test_eof125
@@ -5394,7 +5413,7 @@ tr176:
 			goto st121
 		}
 		goto st0
-tr177:
+tr178:
 //line sip.rl:159
 
 	via.Host = string(data[mark:p])
@@ -5405,9 +5424,9 @@ tr177:
 			goto _test_eof128
 		}
 	st_case_128:
-//line msg_parse.go:5400
+//line msg_parse.go:5419
 		if data[p] == 10 {
-			goto tr199
+			goto tr200
 		}
 		goto st0
 	st129:
@@ -5443,10 +5462,10 @@ tr177:
 			goto st131
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr188
+			goto tr189
 		}
 		goto st0
-tr178:
+tr179:
 //line sip.rl:159
 
 	via.Host = string(data[mark:p])
@@ -5457,7 +5476,7 @@ tr178:
 			goto _test_eof132
 		}
 	st_case_132:
-//line msg_parse.go:5452
+//line msg_parse.go:5471
 		if data[p] == 10 {
 			goto st133
 		}
@@ -5498,22 +5517,22 @@ tr178:
 		}
 	st_case_135:
 		if data[p] == 46 {
-			goto tr204
+			goto tr205
 		}
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 58 {
-				goto tr204
+				goto tr205
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr204
+				goto tr205
 			}
 		default:
-			goto tr204
+			goto tr205
 		}
 		goto st0
-tr204:
+tr205:
 //line sip.rl:80
 
 	mark = p
@@ -5524,12 +5543,12 @@ tr204:
 			goto _test_eof136
 		}
 	st_case_136:
-//line msg_parse.go:5519
+//line msg_parse.go:5538
 		switch data[p] {
 		case 46:
 			goto st136
 		case 93:
-			goto tr206
+			goto tr207
 		}
 		switch {
 		case data[p] < 65:
@@ -5544,7 +5563,7 @@ tr204:
 			goto st136
 		}
 		goto st0
-tr206:
+tr207:
 //line sip.rl:159
 
 	via.Host = string(data[mark:p])
@@ -5555,7 +5574,7 @@ tr206:
 			goto _test_eof137
 		}
 	st_case_137:
-//line msg_parse.go:5550
+//line msg_parse.go:5569
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5580,7 +5599,7 @@ tr206:
 			goto st132
 		}
 		goto st0
-tr167:
+tr168:
 //line sip.rl:155
 
 	via.Transport = string(data[mark:p])
@@ -5591,7 +5610,7 @@ tr167:
 			goto _test_eof138
 		}
 	st_case_138:
-//line msg_parse.go:5586
+//line msg_parse.go:5605
 		if data[p] == 10 {
 			goto st139
 		}
@@ -5624,19 +5643,19 @@ tr167:
 		switch {
 		case data[p] < 48:
 			if 45 <= data[p] && data[p] <= 46 {
-				goto tr169
+				goto tr170
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr169
+					goto tr170
 				}
 			case data[p] >= 65:
-				goto tr169
+				goto tr170
 			}
 		default:
-			goto tr169
+			goto tr170
 		}
 		goto st0
 	st141:
@@ -5671,38 +5690,38 @@ tr167:
 		case 32:
 			goto st143
 		case 33:
-			goto tr163
+			goto tr164
 		case 37:
-			goto tr163
+			goto tr164
 		case 39:
-			goto tr163
+			goto tr164
 		case 126:
-			goto tr163
+			goto tr164
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr163
+					goto tr164
 				}
 			case data[p] >= 42:
-				goto tr163
+				goto tr164
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr163
+					goto tr164
 				}
 			case data[p] >= 65:
-				goto tr163
+				goto tr164
 			}
 		default:
-			goto tr163
+			goto tr164
 		}
 		goto st0
-tr159:
+tr160:
 //line sip.rl:151
 
 	via.Version = string(data[mark:p])
@@ -5713,7 +5732,7 @@ tr159:
 			goto _test_eof144
 		}
 	st_case_144:
-//line msg_parse.go:5708
+//line msg_parse.go:5727
 		if data[p] == 10 {
 			goto st145
 		}
@@ -5776,38 +5795,38 @@ tr159:
 		case 32:
 			goto st149
 		case 33:
-			goto tr154
+			goto tr155
 		case 37:
-			goto tr154
+			goto tr155
 		case 39:
-			goto tr154
+			goto tr155
 		case 126:
-			goto tr154
+			goto tr155
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr154
+					goto tr155
 				}
 			case data[p] >= 42:
-				goto tr154
+				goto tr155
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr154
+					goto tr155
 				}
 			case data[p] >= 65:
-				goto tr154
+				goto tr155
 			}
 		default:
-			goto tr154
+			goto tr155
 		}
 		goto st0
-tr150:
+tr151:
 //line sip.rl:147
 
 	via.Protocol = string(data[mark:p])
@@ -5818,7 +5837,7 @@ tr150:
 			goto _test_eof150
 		}
 	st_case_150:
-//line msg_parse.go:5813
+//line msg_parse.go:5832
 		if data[p] == 10 {
 			goto st151
 		}
@@ -5856,38 +5875,38 @@ tr150:
 	st_case_153:
 		switch data[p] {
 		case 33:
-			goto tr217
+			goto tr218
 		case 37:
-			goto tr217
+			goto tr218
 		case 39:
-			goto tr217
+			goto tr218
 		case 126:
-			goto tr217
+			goto tr218
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr217
+					goto tr218
 				}
 			case data[p] >= 42:
-				goto tr217
+				goto tr218
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr217
+					goto tr218
 				}
 			case data[p] >= 65:
-				goto tr217
+				goto tr218
 			}
 		default:
-			goto tr217
+			goto tr218
 		}
 		goto st0
-tr217:
+tr218:
 //line sip.rl:88
 
 	amt = 0
@@ -5902,7 +5921,7 @@ tr217:
 			goto _test_eof154
 		}
 	st_case_154:
-//line msg_parse.go:5897
+//line msg_parse.go:5916
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5912,9 +5931,9 @@ tr217:
 		}
 		switch _widec {
 		case 9:
-			goto tr218
+			goto tr219
 		case 32:
-			goto tr218
+			goto tr219
 		case 33:
 			goto st154
 		case 37:
@@ -5922,17 +5941,17 @@ tr217:
 		case 39:
 			goto st154
 		case 44:
-			goto tr220
-		case 59:
 			goto tr221
-		case 61:
+		case 59:
 			goto tr222
+		case 61:
+			goto tr223
 		case 126:
 			goto st154
 		case 269:
-			goto tr223
-		case 525:
 			goto tr224
+		case 525:
+			goto tr225
 		}
 		switch {
 		case _widec < 48:
@@ -5952,7 +5971,7 @@ tr217:
 			goto st154
 		}
 		goto st0
-tr218:
+tr219:
 //line sip.rl:176
 
 	name = string(data[mark:p])
@@ -5963,7 +5982,7 @@ tr218:
 			goto _test_eof155
 		}
 	st_case_155:
-//line msg_parse.go:5958
+//line msg_parse.go:5977
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5986,7 +6005,7 @@ tr218:
 			goto st185
 		}
 		goto st0
-tr220:
+tr221:
 //line sip.rl:176
 
 	name = string(data[mark:p])
@@ -5997,7 +6016,7 @@ tr220:
 			goto _test_eof156
 		}
 	st_case_156:
-//line msg_parse.go:5992
+//line msg_parse.go:6011
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6011,20 +6030,20 @@ tr220:
 		case 32:
 			goto st156
 		case 269:
-			goto tr230
+			goto tr231
 		case 525:
 			goto st157
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr230
+				goto tr231
 			}
 		default:
-			goto tr230
+			goto tr231
 		}
 		goto st0
-tr230:
+tr231:
 //line sip.rl:210
 
 	addr.Param = &Param{name, string(buf[0:amt]), addr.Param}
@@ -6043,7 +6062,7 @@ tr230:
 //line sip.rl:252
  {goto st256 } 
 	goto st769
-tr234:
+tr235:
 //line sip.rl:210
 
 	addr.Param = &Param{name, string(buf[0:amt]), addr.Param}
@@ -6056,7 +6075,7 @@ tr234:
 //line sip.rl:254
  {goto st153 } 
 	goto st769
-tr246:
+tr247:
 //line sip.rl:210
 
 	addr.Param = &Param{name, string(buf[0:amt]), addr.Param}
@@ -6075,7 +6094,7 @@ tr246:
 			goto _test_eof769
 		}
 	st_case_769:
-//line msg_parse.go:6070
+//line msg_parse.go:6089
 		goto st0
 	st157:
 		if p++; p == pe {
@@ -6109,8 +6128,8 @@ tr246:
 		case 32:
 			goto st159
 		}
-		goto tr230
-tr221:
+		goto tr231
+tr222:
 //line sip.rl:176
 
 	name = string(data[mark:p])
@@ -6121,7 +6140,7 @@ tr221:
 			goto _test_eof160
 		}
 	st_case_160:
-//line msg_parse.go:6116
+//line msg_parse.go:6135
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6135,17 +6154,17 @@ tr221:
 		case 32:
 			goto st160
 		case 269:
-			goto tr234
+			goto tr235
 		case 525:
 			goto st161
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr234
+				goto tr235
 			}
 		default:
-			goto tr234
+			goto tr235
 		}
 		goto st0
 	st161:
@@ -6180,8 +6199,8 @@ tr221:
 		case 32:
 			goto st163
 		}
-		goto tr234
-tr222:
+		goto tr235
+tr223:
 //line sip.rl:176
 
 	name = string(data[mark:p])
@@ -6192,7 +6211,7 @@ tr222:
 			goto _test_eof164
 		}
 	st_case_164:
-//line msg_parse.go:6187
+//line msg_parse.go:6206
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6206,17 +6225,17 @@ tr222:
 		case 32:
 			goto st164
 		case 33:
-			goto tr238
+			goto tr239
 		case 34:
 			goto st171
 		case 37:
-			goto tr238
+			goto tr239
 		case 39:
-			goto tr238
+			goto tr239
 		case 93:
-			goto tr238
+			goto tr239
 		case 126:
-			goto tr238
+			goto tr239
 		case 525:
 			goto st182
 		}
@@ -6225,25 +6244,25 @@ tr222:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto tr238
+					goto tr239
 				}
 			case _widec >= 42:
-				goto tr238
+				goto tr239
 			}
 		case _widec > 58:
 			switch {
 			case _widec > 91:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr238
+					goto tr239
 				}
 			case _widec >= 65:
-				goto tr238
+				goto tr239
 			}
 		default:
-			goto tr238
+			goto tr239
 		}
 		goto st0
-tr238:
+tr239:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -6255,7 +6274,7 @@ tr238:
 			goto _test_eof165
 		}
 	st_case_165:
-//line msg_parse.go:6250
+//line msg_parse.go:6269
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6269,19 +6288,19 @@ tr238:
 		case 32:
 			goto st166
 		case 33:
-			goto tr238
+			goto tr239
 		case 37:
-			goto tr238
+			goto tr239
 		case 39:
-			goto tr238
+			goto tr239
 		case 44:
 			goto st156
 		case 59:
 			goto st160
 		case 93:
-			goto tr238
+			goto tr239
 		case 126:
-			goto tr238
+			goto tr239
 		case 269:
 			goto st170
 		case 525:
@@ -6290,19 +6309,19 @@ tr238:
 		switch {
 		case _widec < 48:
 			if 42 <= _widec && _widec <= 46 {
-				goto tr238
+				goto tr239
 			}
 		case _widec > 58:
 			switch {
 			case _widec > 91:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr238
+					goto tr239
 				}
 			case _widec >= 65:
-				goto tr238
+				goto tr239
 			}
 		default:
-			goto tr238
+			goto tr239
 		}
 		goto st0
 	st166:
@@ -6367,7 +6386,7 @@ tr238:
 			goto st160
 		}
 		goto st0
-tr223:
+tr224:
 //line sip.rl:176
 
 	name = string(data[mark:p])
@@ -6378,9 +6397,9 @@ tr223:
 			goto _test_eof170
 		}
 	st_case_170:
-//line msg_parse.go:6373
+//line msg_parse.go:6392
 		if data[p] == 10 {
-			goto tr246
+			goto tr247
 		}
 		goto st0
 	st171:
@@ -6397,42 +6416,42 @@ tr223:
 		}
 		switch _widec {
 		case 9:
-			goto tr247
-		case 34:
 			goto tr248
-		case 92:
+		case 34:
 			goto tr249
+		case 92:
+			goto tr250
 		case 525:
-			goto tr255
+			goto tr256
 		}
 		switch {
 		case _widec < 224:
 			switch {
 			case _widec > 126:
 				if 192 <= _widec && _widec <= 223 {
-					goto tr250
+					goto tr251
 				}
 			case _widec >= 32:
-				goto tr247
+				goto tr248
 			}
 		case _widec > 239:
 			switch {
 			case _widec < 248:
 				if 240 <= _widec && _widec <= 247 {
-					goto tr252
+					goto tr253
 				}
 			case _widec > 251:
 				if 252 <= _widec && _widec <= 253 {
-					goto tr254
+					goto tr255
 				}
 			default:
-				goto tr253
+				goto tr254
 			}
 		default:
-			goto tr251
+			goto tr252
 		}
 		goto st0
-tr247:
+tr248:
 //line sip.rl:88
 
 	amt = 0
@@ -6443,7 +6462,7 @@ tr247:
 	amt++
 
 	goto st172
-tr256:
+tr257:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -6455,7 +6474,7 @@ tr256:
 			goto _test_eof172
 		}
 	st_case_172:
-//line msg_parse.go:6450
+//line msg_parse.go:6469
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6465,42 +6484,42 @@ tr256:
 		}
 		switch _widec {
 		case 9:
-			goto tr256
+			goto tr257
 		case 34:
 			goto st173
 		case 92:
 			goto st174
 		case 525:
-			goto tr264
+			goto tr265
 		}
 		switch {
 		case _widec < 224:
 			switch {
 			case _widec > 126:
 				if 192 <= _widec && _widec <= 223 {
-					goto tr259
+					goto tr260
 				}
 			case _widec >= 32:
-				goto tr256
+				goto tr257
 			}
 		case _widec > 239:
 			switch {
 			case _widec < 248:
 				if 240 <= _widec && _widec <= 247 {
-					goto tr261
+					goto tr262
 				}
 			case _widec > 251:
 				if 252 <= _widec && _widec <= 253 {
-					goto tr263
+					goto tr264
 				}
 			default:
-				goto tr262
+				goto tr263
 			}
 		default:
-			goto tr260
+			goto tr261
 		}
 		goto st0
-tr248:
+tr249:
 //line sip.rl:88
 
 	amt = 0
@@ -6511,7 +6530,7 @@ tr248:
 			goto _test_eof173
 		}
 	st_case_173:
-//line msg_parse.go:6506
+//line msg_parse.go:6525
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6534,7 +6553,7 @@ tr248:
 			goto st167
 		}
 		goto st0
-tr249:
+tr250:
 //line sip.rl:88
 
 	amt = 0
@@ -6545,21 +6564,21 @@ tr249:
 			goto _test_eof174
 		}
 	st_case_174:
-//line msg_parse.go:6540
+//line msg_parse.go:6559
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
-				goto tr256
+				goto tr257
 			}
 		case data[p] > 12:
 			if 14 <= data[p] && data[p] <= 127 {
-				goto tr256
+				goto tr257
 			}
 		default:
-			goto tr256
+			goto tr257
 		}
 		goto st0
-tr250:
+tr251:
 //line sip.rl:88
 
 	amt = 0
@@ -6570,7 +6589,7 @@ tr250:
 	amt++
 
 	goto st175
-tr259:
+tr260:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -6582,12 +6601,12 @@ tr259:
 			goto _test_eof175
 		}
 	st_case_175:
-//line msg_parse.go:6577
+//line msg_parse.go:6596
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr256
+			goto tr257
 		}
 		goto st0
-tr251:
+tr252:
 //line sip.rl:88
 
 	amt = 0
@@ -6598,7 +6617,7 @@ tr251:
 	amt++
 
 	goto st176
-tr260:
+tr261:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -6610,12 +6629,12 @@ tr260:
 			goto _test_eof176
 		}
 	st_case_176:
-//line msg_parse.go:6605
+//line msg_parse.go:6624
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr259
+			goto tr260
 		}
 		goto st0
-tr252:
+tr253:
 //line sip.rl:88
 
 	amt = 0
@@ -6626,7 +6645,7 @@ tr252:
 	amt++
 
 	goto st177
-tr261:
+tr262:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -6638,12 +6657,12 @@ tr261:
 			goto _test_eof177
 		}
 	st_case_177:
-//line msg_parse.go:6633
+//line msg_parse.go:6652
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr260
+			goto tr261
 		}
 		goto st0
-tr253:
+tr254:
 //line sip.rl:88
 
 	amt = 0
@@ -6654,7 +6673,7 @@ tr253:
 	amt++
 
 	goto st178
-tr262:
+tr263:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -6666,12 +6685,12 @@ tr262:
 			goto _test_eof178
 		}
 	st_case_178:
-//line msg_parse.go:6661
+//line msg_parse.go:6680
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr261
+			goto tr262
 		}
 		goto st0
-tr254:
+tr255:
 //line sip.rl:88
 
 	amt = 0
@@ -6682,7 +6701,7 @@ tr254:
 	amt++
 
 	goto st179
-tr263:
+tr264:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -6694,12 +6713,12 @@ tr263:
 			goto _test_eof179
 		}
 	st_case_179:
-//line msg_parse.go:6689
+//line msg_parse.go:6708
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr262
+			goto tr263
 		}
 		goto st0
-tr255:
+tr256:
 //line sip.rl:88
 
 	amt = 0
@@ -6710,7 +6729,7 @@ tr255:
 	amt++
 
 	goto st180
-tr264:
+tr265:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -6722,12 +6741,12 @@ tr264:
 			goto _test_eof180
 		}
 	st_case_180:
-//line msg_parse.go:6717
+//line msg_parse.go:6736
 		if data[p] == 10 {
-			goto tr265
+			goto tr266
 		}
 		goto st0
-tr265:
+tr266:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -6739,12 +6758,12 @@ tr265:
 			goto _test_eof181
 		}
 	st_case_181:
-//line msg_parse.go:6734
+//line msg_parse.go:6753
 		switch data[p] {
 		case 9:
-			goto tr256
+			goto tr257
 		case 32:
-			goto tr256
+			goto tr257
 		}
 		goto st0
 	st182:
@@ -6779,42 +6798,42 @@ tr265:
 		case 32:
 			goto st184
 		case 33:
-			goto tr238
+			goto tr239
 		case 34:
 			goto st171
 		case 37:
-			goto tr238
+			goto tr239
 		case 39:
-			goto tr238
+			goto tr239
 		case 93:
-			goto tr238
+			goto tr239
 		case 126:
-			goto tr238
+			goto tr239
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr238
+					goto tr239
 				}
 			case data[p] >= 42:
-				goto tr238
+				goto tr239
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr238
+					goto tr239
 				}
 			case data[p] >= 65:
-				goto tr238
+				goto tr239
 			}
 		default:
-			goto tr238
+			goto tr239
 		}
 		goto st0
-tr224:
+tr225:
 //line sip.rl:176
 
 	name = string(data[mark:p])
@@ -6825,7 +6844,7 @@ tr224:
 			goto _test_eof185
 		}
 	st_case_185:
-//line msg_parse.go:6820
+//line msg_parse.go:6839
 		if data[p] == 10 {
 			goto st186
 		}
@@ -6878,17 +6897,17 @@ tr224:
 		case 32:
 			goto st189
 		case 33:
-			goto tr271
-		case 34:
 			goto tr272
+		case 34:
+			goto tr273
 		case 37:
-			goto tr271
+			goto tr272
 		case 39:
-			goto tr271
+			goto tr272
 		case 60:
 			goto st190
 		case 126:
-			goto tr271
+			goto tr272
 		case 525:
 			goto st210
 		}
@@ -6897,25 +6916,25 @@ tr224:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto tr271
+					goto tr272
 				}
 			case _widec >= 42:
-				goto tr271
+				goto tr272
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr271
+					goto tr272
 				}
 			case _widec >= 65:
-				goto tr271
+				goto tr272
 			}
 		default:
-			goto tr271
+			goto tr272
 		}
 		goto st0
-tr329:
+tr330:
 //line sip.rl:193
 
 	addr.Display = string(buf[0:amt])
@@ -6926,7 +6945,7 @@ tr329:
 			goto _test_eof189
 		}
 	st_case_189:
-//line msg_parse.go:6921
+//line msg_parse.go:6940
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6945,7 +6964,7 @@ tr329:
 			goto st210
 		}
 		goto st0
-tr305:
+tr306:
 //line sip.rl:197
 {
 	end := p
@@ -6955,7 +6974,7 @@ tr305:
 	addr.Display = string(data[mark:end])
 }
 	goto st190
-tr330:
+tr331:
 //line sip.rl:193
 
 	addr.Display = string(buf[0:amt])
@@ -6966,17 +6985,17 @@ tr330:
 			goto _test_eof190
 		}
 	st_case_190:
-//line msg_parse.go:6961
+//line msg_parse.go:6980
 		switch {
 		case data[p] > 90:
 			if 97 <= data[p] && data[p] <= 122 {
-				goto tr275
+				goto tr276
 			}
 		case data[p] >= 65:
-			goto tr275
+			goto tr276
 		}
 		goto st0
-tr275:
+tr276:
 //line sip.rl:80
 
 	mark = p
@@ -6987,7 +7006,7 @@ tr275:
 			goto _test_eof191
 		}
 	st_case_191:
-//line msg_parse.go:6982
+//line msg_parse.go:7001
 		switch data[p] {
 		case 43:
 			goto st191
@@ -7051,7 +7070,7 @@ tr275:
 		case 33:
 			goto st193
 		case 62:
-			goto tr279
+			goto tr280
 		case 93:
 			goto st193
 		case 95:
@@ -7072,7 +7091,7 @@ tr275:
 			goto st193
 		}
 		goto st0
-tr279:
+tr280:
 //line sip.rl:205
 
 	addr.Uri, err = ParseURI(data[mark:p])
@@ -7084,7 +7103,7 @@ tr279:
 			goto _test_eof194
 		}
 	st_case_194:
-//line msg_parse.go:7079
+//line msg_parse.go:7098
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7125,20 +7144,20 @@ tr279:
 		case 32:
 			goto st195
 		case 269:
-			goto tr285
+			goto tr286
 		case 525:
 			goto st196
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr285
+				goto tr286
 			}
 		default:
-			goto tr285
+			goto tr286
 		}
 		goto st0
-tr285:
+tr286:
 //line sip.rl:214
 
 	*addrp = addr
@@ -7153,7 +7172,7 @@ tr285:
 //line sip.rl:252
  {goto st256 } 
 	goto st770
-tr289:
+tr290:
 //line sip.rl:72
 
 	p--
@@ -7162,7 +7181,7 @@ tr289:
 //line sip.rl:254
  {goto st153 } 
 	goto st770
-tr293:
+tr294:
 //line sip.rl:214
 
 	*addrp = addr
@@ -7177,7 +7196,7 @@ tr293:
 			goto _test_eof770
 		}
 	st_case_770:
-//line msg_parse.go:7172
+//line msg_parse.go:7191
 		goto st0
 	st196:
 		if p++; p == pe {
@@ -7211,7 +7230,7 @@ tr293:
 		case 32:
 			goto st198
 		}
-		goto tr285
+		goto tr286
 	st199:
 		if p++; p == pe {
 			goto _test_eof199
@@ -7230,17 +7249,17 @@ tr293:
 		case 32:
 			goto st199
 		case 269:
-			goto tr289
+			goto tr290
 		case 525:
 			goto st200
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr289
+				goto tr290
 			}
 		default:
-			goto tr289
+			goto tr290
 		}
 		goto st0
 	st200:
@@ -7275,14 +7294,14 @@ tr293:
 		case 32:
 			goto st202
 		}
-		goto tr289
+		goto tr290
 	st203:
 		if p++; p == pe {
 			goto _test_eof203
 		}
 	st_case_203:
 		if data[p] == 10 {
-			goto tr293
+			goto tr294
 		}
 		goto st0
 	st204:
@@ -7370,7 +7389,7 @@ tr293:
 			goto st199
 		}
 		goto st0
-tr310:
+tr311:
 //line sip.rl:197
 {
 	end := p
@@ -7380,7 +7399,7 @@ tr310:
 	addr.Display = string(data[mark:end])
 }
 	goto st210
-tr331:
+tr332:
 //line sip.rl:193
 
 	addr.Display = string(buf[0:amt])
@@ -7391,7 +7410,7 @@ tr331:
 			goto _test_eof210
 		}
 	st_case_210:
-//line msg_parse.go:7386
+//line msg_parse.go:7405
 		if data[p] == 10 {
 			goto st211
 		}
@@ -7422,7 +7441,7 @@ tr331:
 			goto st190
 		}
 		goto st0
-tr271:
+tr272:
 //line sip.rl:80
 
 	mark = p
@@ -7433,7 +7452,7 @@ tr271:
 			goto _test_eof213
 		}
 	st_case_213:
-//line msg_parse.go:7428
+//line msg_parse.go:7447
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7480,7 +7499,7 @@ tr271:
 			goto st213
 		}
 		goto st0
-tr304:
+tr305:
 //line sip.rl:197
 {
 	end := p
@@ -7495,7 +7514,7 @@ tr304:
 			goto _test_eof214
 		}
 	st_case_214:
-//line msg_parse.go:7490
+//line msg_parse.go:7509
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7505,9 +7524,9 @@ tr304:
 		}
 		switch _widec {
 		case 9:
-			goto tr304
+			goto tr305
 		case 32:
-			goto tr304
+			goto tr305
 		case 33:
 			goto st213
 		case 37:
@@ -7515,11 +7534,11 @@ tr304:
 		case 39:
 			goto st213
 		case 60:
-			goto tr305
+			goto tr306
 		case 126:
 			goto st213
 		case 525:
-			goto tr306
+			goto tr307
 		}
 		switch {
 		case _widec < 48:
@@ -7544,7 +7563,7 @@ tr304:
 			goto st213
 		}
 		goto st0
-tr306:
+tr307:
 //line sip.rl:197
 {
 	end := p
@@ -7559,7 +7578,7 @@ tr306:
 			goto _test_eof215
 		}
 	st_case_215:
-//line msg_parse.go:7554
+//line msg_parse.go:7573
 		if data[p] == 10 {
 			goto st216
 		}
@@ -7576,7 +7595,7 @@ tr306:
 			goto st217
 		}
 		goto st0
-tr309:
+tr310:
 //line sip.rl:197
 {
 	end := p
@@ -7591,7 +7610,7 @@ tr309:
 			goto _test_eof217
 		}
 	st_case_217:
-//line msg_parse.go:7586
+//line msg_parse.go:7605
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7601,9 +7620,9 @@ tr309:
 		}
 		switch _widec {
 		case 9:
-			goto tr309
+			goto tr310
 		case 32:
-			goto tr309
+			goto tr310
 		case 33:
 			goto st213
 		case 37:
@@ -7611,11 +7630,11 @@ tr309:
 		case 39:
 			goto st213
 		case 60:
-			goto tr305
+			goto tr306
 		case 126:
 			goto st213
 		case 525:
-			goto tr310
+			goto tr311
 		}
 		switch {
 		case _widec < 48:
@@ -7640,7 +7659,7 @@ tr309:
 			goto st213
 		}
 		goto st0
-tr272:
+tr273:
 //line sip.rl:88
 
 	amt = 0
@@ -7651,7 +7670,7 @@ tr272:
 			goto _test_eof218
 		}
 	st_case_218:
-//line msg_parse.go:7646
+//line msg_parse.go:7665
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7661,42 +7680,42 @@ tr272:
 		}
 		switch _widec {
 		case 9:
-			goto tr311
-		case 34:
 			goto tr312
-		case 92:
+		case 34:
 			goto tr313
+		case 92:
+			goto tr314
 		case 525:
-			goto tr319
+			goto tr320
 		}
 		switch {
 		case _widec < 224:
 			switch {
 			case _widec > 126:
 				if 192 <= _widec && _widec <= 223 {
-					goto tr314
+					goto tr315
 				}
 			case _widec >= 32:
-				goto tr311
+				goto tr312
 			}
 		case _widec > 239:
 			switch {
 			case _widec < 248:
 				if 240 <= _widec && _widec <= 247 {
-					goto tr316
+					goto tr317
 				}
 			case _widec > 251:
 				if 252 <= _widec && _widec <= 253 {
-					goto tr318
+					goto tr319
 				}
 			default:
-				goto tr317
+				goto tr318
 			}
 		default:
-			goto tr315
+			goto tr316
 		}
 		goto st0
-tr311:
+tr312:
 //line sip.rl:88
 
 	amt = 0
@@ -7707,7 +7726,7 @@ tr311:
 	amt++
 
 	goto st219
-tr320:
+tr321:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -7719,7 +7738,7 @@ tr320:
 			goto _test_eof219
 		}
 	st_case_219:
-//line msg_parse.go:7714
+//line msg_parse.go:7733
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7729,42 +7748,42 @@ tr320:
 		}
 		switch _widec {
 		case 9:
-			goto tr320
+			goto tr321
 		case 34:
 			goto st220
 		case 92:
 			goto st221
 		case 525:
-			goto tr328
+			goto tr329
 		}
 		switch {
 		case _widec < 224:
 			switch {
 			case _widec > 126:
 				if 192 <= _widec && _widec <= 223 {
-					goto tr323
+					goto tr324
 				}
 			case _widec >= 32:
-				goto tr320
+				goto tr321
 			}
 		case _widec > 239:
 			switch {
 			case _widec < 248:
 				if 240 <= _widec && _widec <= 247 {
-					goto tr325
+					goto tr326
 				}
 			case _widec > 251:
 				if 252 <= _widec && _widec <= 253 {
-					goto tr327
+					goto tr328
 				}
 			default:
-				goto tr326
+				goto tr327
 			}
 		default:
-			goto tr324
+			goto tr325
 		}
 		goto st0
-tr312:
+tr313:
 //line sip.rl:88
 
 	amt = 0
@@ -7775,7 +7794,7 @@ tr312:
 			goto _test_eof220
 		}
 	st_case_220:
-//line msg_parse.go:7770
+//line msg_parse.go:7789
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7785,16 +7804,16 @@ tr312:
 		}
 		switch _widec {
 		case 9:
-			goto tr329
+			goto tr330
 		case 32:
-			goto tr329
-		case 60:
 			goto tr330
-		case 525:
+		case 60:
 			goto tr331
+		case 525:
+			goto tr332
 		}
 		goto st0
-tr313:
+tr314:
 //line sip.rl:88
 
 	amt = 0
@@ -7805,21 +7824,21 @@ tr313:
 			goto _test_eof221
 		}
 	st_case_221:
-//line msg_parse.go:7800
+//line msg_parse.go:7819
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
-				goto tr320
+				goto tr321
 			}
 		case data[p] > 12:
 			if 14 <= data[p] && data[p] <= 127 {
-				goto tr320
+				goto tr321
 			}
 		default:
-			goto tr320
+			goto tr321
 		}
 		goto st0
-tr314:
+tr315:
 //line sip.rl:88
 
 	amt = 0
@@ -7830,7 +7849,7 @@ tr314:
 	amt++
 
 	goto st222
-tr323:
+tr324:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -7842,12 +7861,12 @@ tr323:
 			goto _test_eof222
 		}
 	st_case_222:
-//line msg_parse.go:7837
+//line msg_parse.go:7856
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr320
+			goto tr321
 		}
 		goto st0
-tr315:
+tr316:
 //line sip.rl:88
 
 	amt = 0
@@ -7858,7 +7877,7 @@ tr315:
 	amt++
 
 	goto st223
-tr324:
+tr325:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -7870,12 +7889,12 @@ tr324:
 			goto _test_eof223
 		}
 	st_case_223:
-//line msg_parse.go:7865
+//line msg_parse.go:7884
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr323
+			goto tr324
 		}
 		goto st0
-tr316:
+tr317:
 //line sip.rl:88
 
 	amt = 0
@@ -7886,7 +7905,7 @@ tr316:
 	amt++
 
 	goto st224
-tr325:
+tr326:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -7898,12 +7917,12 @@ tr325:
 			goto _test_eof224
 		}
 	st_case_224:
-//line msg_parse.go:7893
+//line msg_parse.go:7912
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr324
+			goto tr325
 		}
 		goto st0
-tr317:
+tr318:
 //line sip.rl:88
 
 	amt = 0
@@ -7914,7 +7933,7 @@ tr317:
 	amt++
 
 	goto st225
-tr326:
+tr327:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -7926,12 +7945,12 @@ tr326:
 			goto _test_eof225
 		}
 	st_case_225:
-//line msg_parse.go:7921
+//line msg_parse.go:7940
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr325
+			goto tr326
 		}
 		goto st0
-tr318:
+tr319:
 //line sip.rl:88
 
 	amt = 0
@@ -7942,7 +7961,7 @@ tr318:
 	amt++
 
 	goto st226
-tr327:
+tr328:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -7954,12 +7973,12 @@ tr327:
 			goto _test_eof226
 		}
 	st_case_226:
-//line msg_parse.go:7949
+//line msg_parse.go:7968
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr326
+			goto tr327
 		}
 		goto st0
-tr319:
+tr320:
 //line sip.rl:88
 
 	amt = 0
@@ -7970,7 +7989,7 @@ tr319:
 	amt++
 
 	goto st227
-tr328:
+tr329:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -7982,12 +8001,12 @@ tr328:
 			goto _test_eof227
 		}
 	st_case_227:
-//line msg_parse.go:7977
+//line msg_parse.go:7996
 		if data[p] == 10 {
-			goto tr332
+			goto tr333
 		}
 		goto st0
-tr332:
+tr333:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -7999,12 +8018,12 @@ tr332:
 			goto _test_eof228
 		}
 	st_case_228:
-//line msg_parse.go:7994
+//line msg_parse.go:8013
 		switch data[p] {
 		case 9:
-			goto tr320
+			goto tr321
 		case 32:
-			goto tr320
+			goto tr321
 		}
 		goto st0
 	st229:
@@ -8094,15 +8113,15 @@ tr332:
 		}
 		switch _widec {
 		case 9:
-			goto tr336
+			goto tr337
 		case 32:
-			goto tr336
+			goto tr337
 		case 33:
 			goto st232
 		case 44:
-			goto tr337
-		case 59:
 			goto tr338
+		case 59:
+			goto tr339
 		case 61:
 			goto st232
 		case 93:
@@ -8112,9 +8131,9 @@ tr332:
 		case 126:
 			goto st232
 		case 269:
-			goto tr339
-		case 525:
 			goto tr340
+		case 525:
+			goto tr341
 		}
 		switch {
 		case _widec < 63:
@@ -8129,7 +8148,7 @@ tr332:
 			goto st232
 		}
 		goto st0
-tr336:
+tr337:
 //line sip.rl:205
 
 	addr.Uri, err = ParseURI(data[mark:p])
@@ -8141,7 +8160,7 @@ tr336:
 			goto _test_eof233
 		}
 	st_case_233:
-//line msg_parse.go:8136
+//line msg_parse.go:8155
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8180,20 +8199,20 @@ tr336:
 		case 32:
 			goto st234
 		case 269:
-			goto tr345
+			goto tr346
 		case 525:
 			goto st235
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr345
+				goto tr346
 			}
 		default:
-			goto tr345
+			goto tr346
 		}
 		goto st0
-tr345:
+tr346:
 //line sip.rl:214
 
 	*addrp = addr
@@ -8208,7 +8227,7 @@ tr345:
 //line sip.rl:252
  {goto st256 } 
 	goto st771
-tr349:
+tr350:
 //line sip.rl:72
 
 	p--
@@ -8217,7 +8236,7 @@ tr349:
 //line sip.rl:254
  {goto st153 } 
 	goto st771
-tr375:
+tr376:
 //line sip.rl:214
 
 	*addrp = addr
@@ -8232,7 +8251,7 @@ tr375:
 			goto _test_eof771
 		}
 	st_case_771:
-//line msg_parse.go:8227
+//line msg_parse.go:8246
 		goto st0
 	st235:
 		if p++; p == pe {
@@ -8266,7 +8285,7 @@ tr375:
 		case 32:
 			goto st237
 		}
-		goto tr345
+		goto tr346
 	st238:
 		if p++; p == pe {
 			goto _test_eof238
@@ -8285,17 +8304,17 @@ tr375:
 		case 32:
 			goto st238
 		case 269:
-			goto tr349
+			goto tr350
 		case 525:
 			goto st239
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr349
+				goto tr350
 			}
 		default:
-			goto tr349
+			goto tr350
 		}
 		goto st0
 	st239:
@@ -8330,8 +8349,8 @@ tr375:
 		case 32:
 			goto st241
 		}
-		goto tr349
-tr340:
+		goto tr350
+tr341:
 //line sip.rl:205
 
 	addr.Uri, err = ParseURI(data[mark:p])
@@ -8343,7 +8362,7 @@ tr340:
 			goto _test_eof242
 		}
 	st_case_242:
-//line msg_parse.go:8338
+//line msg_parse.go:8357
 		if data[p] == 10 {
 			goto st243
 		}
@@ -8376,7 +8395,7 @@ tr340:
 			goto st238
 		}
 		goto st0
-tr337:
+tr338:
 //line sip.rl:205
 
 	addr.Uri, err = ParseURI(data[mark:p])
@@ -8388,7 +8407,7 @@ tr337:
 			goto _test_eof245
 		}
 	st_case_245:
-//line msg_parse.go:8383
+//line msg_parse.go:8402
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8398,51 +8417,51 @@ tr337:
 		}
 		switch _widec {
 		case 9:
-			goto tr355
+			goto tr356
 		case 32:
-			goto tr355
-		case 33:
 			goto tr356
+		case 33:
+			goto tr357
 		case 44:
-			goto tr337
+			goto tr338
 		case 59:
-			goto tr357
+			goto tr358
 		case 60:
-			goto tr345
+			goto tr346
 		case 62:
-			goto tr345
+			goto tr346
 		case 92:
-			goto tr345
+			goto tr346
 		case 94:
-			goto tr345
+			goto tr346
 		case 96:
-			goto tr345
+			goto tr346
 		case 126:
-			goto tr356
+			goto tr357
 		case 269:
-			goto tr358
-		case 525:
 			goto tr359
+		case 525:
+			goto tr360
 		}
 		switch {
 		case _widec < 14:
 			if _widec <= 12 {
-				goto tr345
+				goto tr346
 			}
 		case _widec > 35:
 			switch {
 			case _widec > 122:
 				if 123 <= _widec {
-					goto tr345
+					goto tr346
 				}
 			case _widec >= 36:
-				goto tr356
+				goto tr357
 			}
 		default:
-			goto tr345
+			goto tr346
 		}
 		goto st0
-tr355:
+tr356:
 //line sip.rl:205
 
 	addr.Uri, err = ParseURI(data[mark:p])
@@ -8454,7 +8473,7 @@ tr355:
 			goto _test_eof246
 		}
 	st_case_246:
-//line msg_parse.go:8449
+//line msg_parse.go:8468
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8470,22 +8489,22 @@ tr355:
 		case 44:
 			goto st234
 		case 59:
-			goto tr361
+			goto tr362
 		case 269:
-			goto tr345
+			goto tr346
 		case 525:
 			goto st247
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr345
+				goto tr346
 			}
 		default:
-			goto tr345
+			goto tr346
 		}
 		goto st0
-tr361:
+tr362:
 //line sip.rl:214
 
 	*addrp = addr
@@ -8505,7 +8524,7 @@ tr361:
 			goto _test_eof772
 		}
 	st_case_772:
-//line msg_parse.go:8500
+//line msg_parse.go:8519
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8519,20 +8538,20 @@ tr361:
 		case 32:
 			goto st238
 		case 269:
-			goto tr349
+			goto tr350
 		case 525:
 			goto st239
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr349
+				goto tr350
 			}
 		default:
-			goto tr349
+			goto tr350
 		}
 		goto st0
-tr359:
+tr360:
 //line sip.rl:205
 
 	addr.Uri, err = ParseURI(data[mark:p])
@@ -8544,7 +8563,7 @@ tr359:
 			goto _test_eof247
 		}
 	st_case_247:
-//line msg_parse.go:8539
+//line msg_parse.go:8558
 		if data[p] == 10 {
 			goto st248
 		}
@@ -8574,10 +8593,10 @@ tr359:
 		case 44:
 			goto st234
 		case 59:
-			goto tr361
+			goto tr362
 		}
-		goto tr345
-tr356:
+		goto tr346
+tr357:
 //line sip.rl:214
 
 	*addrp = addr
@@ -8592,7 +8611,7 @@ tr356:
 //line sip.rl:252
  {goto st256 } 
 	goto st773
-tr366:
+tr367:
 //line sip.rl:72
 
 	p--
@@ -8606,7 +8625,7 @@ tr366:
 			goto _test_eof773
 		}
 	st_case_773:
-//line msg_parse.go:8601
+//line msg_parse.go:8620
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8616,15 +8635,15 @@ tr366:
 		}
 		switch _widec {
 		case 9:
-			goto tr336
+			goto tr337
 		case 32:
-			goto tr336
+			goto tr337
 		case 33:
 			goto st232
 		case 44:
-			goto tr337
-		case 59:
 			goto tr338
+		case 59:
+			goto tr339
 		case 61:
 			goto st232
 		case 93:
@@ -8634,9 +8653,9 @@ tr366:
 		case 126:
 			goto st232
 		case 269:
-			goto tr339
-		case 525:
 			goto tr340
+		case 525:
+			goto tr341
 		}
 		switch {
 		case _widec < 63:
@@ -8651,7 +8670,7 @@ tr366:
 			goto st232
 		}
 		goto st0
-tr338:
+tr339:
 //line sip.rl:205
 
 	addr.Uri, err = ParseURI(data[mark:p])
@@ -8663,7 +8682,7 @@ tr338:
 			goto _test_eof250
 		}
 	st_case_250:
-//line msg_parse.go:8658
+//line msg_parse.go:8677
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8673,51 +8692,51 @@ tr338:
 		}
 		switch _widec {
 		case 9:
-			goto tr365
+			goto tr366
 		case 32:
-			goto tr365
-		case 33:
 			goto tr366
-		case 44:
+		case 33:
 			goto tr367
+		case 44:
+			goto tr368
 		case 59:
-			goto tr338
+			goto tr339
 		case 60:
-			goto tr349
+			goto tr350
 		case 62:
-			goto tr349
+			goto tr350
 		case 92:
-			goto tr349
+			goto tr350
 		case 94:
-			goto tr349
+			goto tr350
 		case 96:
-			goto tr349
+			goto tr350
 		case 126:
-			goto tr366
+			goto tr367
 		case 269:
-			goto tr368
-		case 525:
 			goto tr369
+		case 525:
+			goto tr370
 		}
 		switch {
 		case _widec < 14:
 			if _widec <= 12 {
-				goto tr349
+				goto tr350
 			}
 		case _widec > 35:
 			switch {
 			case _widec > 122:
 				if 123 <= _widec {
-					goto tr349
+					goto tr350
 				}
 			case _widec >= 36:
-				goto tr366
+				goto tr367
 			}
 		default:
-			goto tr349
+			goto tr350
 		}
 		goto st0
-tr365:
+tr366:
 //line sip.rl:205
 
 	addr.Uri, err = ParseURI(data[mark:p])
@@ -8729,7 +8748,7 @@ tr365:
 			goto _test_eof251
 		}
 	st_case_251:
-//line msg_parse.go:8724
+//line msg_parse.go:8743
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8743,24 +8762,24 @@ tr365:
 		case 32:
 			goto st251
 		case 44:
-			goto tr371
+			goto tr372
 		case 59:
 			goto st238
 		case 269:
-			goto tr349
+			goto tr350
 		case 525:
 			goto st252
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr349
+				goto tr350
 			}
 		default:
-			goto tr349
+			goto tr350
 		}
 		goto st0
-tr371:
+tr372:
 //line sip.rl:72
 
 	p--
@@ -8774,7 +8793,7 @@ tr371:
 			goto _test_eof774
 		}
 	st_case_774:
-//line msg_parse.go:8769
+//line msg_parse.go:8788
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8788,20 +8807,20 @@ tr371:
 		case 32:
 			goto st234
 		case 269:
-			goto tr345
+			goto tr346
 		case 525:
 			goto st235
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr345
+				goto tr346
 			}
 		default:
-			goto tr345
+			goto tr346
 		}
 		goto st0
-tr369:
+tr370:
 //line sip.rl:205
 
 	addr.Uri, err = ParseURI(data[mark:p])
@@ -8813,7 +8832,7 @@ tr369:
 			goto _test_eof252
 		}
 	st_case_252:
-//line msg_parse.go:8808
+//line msg_parse.go:8827
 		if data[p] == 10 {
 			goto st253
 		}
@@ -8841,12 +8860,12 @@ tr369:
 		case 32:
 			goto st254
 		case 44:
-			goto tr371
+			goto tr372
 		case 59:
 			goto st238
 		}
-		goto tr349
-tr367:
+		goto tr350
+tr368:
 //line sip.rl:205
 
 	addr.Uri, err = ParseURI(data[mark:p])
@@ -8865,7 +8884,7 @@ tr367:
 			goto _test_eof775
 		}
 	st_case_775:
-//line msg_parse.go:8860
+//line msg_parse.go:8879
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8875,51 +8894,51 @@ tr367:
 		}
 		switch _widec {
 		case 9:
-			goto tr355
+			goto tr356
 		case 32:
-			goto tr355
-		case 33:
 			goto tr356
+		case 33:
+			goto tr357
 		case 44:
-			goto tr337
+			goto tr338
 		case 59:
-			goto tr357
+			goto tr358
 		case 60:
-			goto tr345
+			goto tr346
 		case 62:
-			goto tr345
+			goto tr346
 		case 92:
-			goto tr345
+			goto tr346
 		case 94:
-			goto tr345
+			goto tr346
 		case 96:
-			goto tr345
+			goto tr346
 		case 126:
-			goto tr356
+			goto tr357
 		case 269:
-			goto tr358
-		case 525:
 			goto tr359
+		case 525:
+			goto tr360
 		}
 		switch {
 		case _widec < 14:
 			if _widec <= 12 {
-				goto tr345
+				goto tr346
 			}
 		case _widec > 35:
 			switch {
 			case _widec > 122:
 				if 123 <= _widec {
-					goto tr345
+					goto tr346
 				}
 			case _widec >= 36:
-				goto tr356
+				goto tr357
 			}
 		default:
-			goto tr345
+			goto tr346
 		}
 		goto st0
-tr357:
+tr358:
 //line sip.rl:205
 
 	addr.Uri, err = ParseURI(data[mark:p])
@@ -8944,7 +8963,7 @@ tr357:
 			goto _test_eof776
 		}
 	st_case_776:
-//line msg_parse.go:8939
+//line msg_parse.go:8958
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8954,51 +8973,51 @@ tr357:
 		}
 		switch _widec {
 		case 9:
-			goto tr365
+			goto tr366
 		case 32:
-			goto tr365
-		case 33:
 			goto tr366
-		case 44:
+		case 33:
 			goto tr367
+		case 44:
+			goto tr368
 		case 59:
-			goto tr338
+			goto tr339
 		case 60:
-			goto tr349
+			goto tr350
 		case 62:
-			goto tr349
+			goto tr350
 		case 92:
-			goto tr349
+			goto tr350
 		case 94:
-			goto tr349
+			goto tr350
 		case 96:
-			goto tr349
+			goto tr350
 		case 126:
-			goto tr366
+			goto tr367
 		case 269:
-			goto tr368
-		case 525:
 			goto tr369
+		case 525:
+			goto tr370
 		}
 		switch {
 		case _widec < 14:
 			if _widec <= 12 {
-				goto tr349
+				goto tr350
 			}
 		case _widec > 35:
 			switch {
 			case _widec > 122:
 				if 123 <= _widec {
-					goto tr349
+					goto tr350
 				}
 			case _widec >= 36:
-				goto tr366
+				goto tr367
 			}
 		default:
-			goto tr349
+			goto tr350
 		}
 		goto st0
-tr358:
+tr359:
 //line sip.rl:205
 
 	addr.Uri, err = ParseURI(data[mark:p])
@@ -9018,7 +9037,7 @@ tr358:
 //line sip.rl:252
  {goto st256 } 
 	goto st777
-tr368:
+tr369:
 //line sip.rl:205
 
 	addr.Uri, err = ParseURI(data[mark:p])
@@ -9037,12 +9056,12 @@ tr368:
 			goto _test_eof777
 		}
 	st_case_777:
-//line msg_parse.go:9032
+//line msg_parse.go:9051
 		if data[p] == 10 {
-			goto tr375
+			goto tr376
 		}
 		goto st0
-tr339:
+tr340:
 //line sip.rl:205
 
 	addr.Uri, err = ParseURI(data[mark:p])
@@ -9054,9 +9073,9 @@ tr339:
 			goto _test_eof255
 		}
 	st_case_255:
-//line msg_parse.go:9049
+//line msg_parse.go:9068
 		if data[p] == 10 {
-			goto tr375
+			goto tr376
 		}
 		goto st0
 	st256:
@@ -9066,46 +9085,46 @@ tr339:
 	st_case_256:
 		switch data[p] {
 		case 33:
-			goto tr376
-		case 34:
 			goto tr377
+		case 34:
+			goto tr378
 		case 37:
-			goto tr376
+			goto tr377
 		case 39:
-			goto tr376
-		case 60:
 			goto tr377
+		case 60:
+			goto tr378
 		case 126:
-			goto tr376
+			goto tr377
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr376
+					goto tr377
 				}
 			case data[p] >= 42:
-				goto tr376
+				goto tr377
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] < 95:
 				if 65 <= data[p] && data[p] <= 90 {
-					goto tr378
+					goto tr379
 				}
 			case data[p] > 96:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr378
+					goto tr379
 				}
 			default:
-				goto tr376
+				goto tr377
 			}
 		default:
-			goto tr376
+			goto tr377
 		}
 		goto st0
-tr376:
+tr377:
 //line sip.rl:80
 
 	mark = p
@@ -9116,7 +9135,7 @@ tr376:
 			goto _test_eof257
 		}
 	st_case_257:
-//line msg_parse.go:9111
+//line msg_parse.go:9130
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9187,7 +9206,7 @@ tr376:
 		case 39:
 			goto st257
 		case 60:
-			goto tr382
+			goto tr383
 		case 126:
 			goto st257
 		case 525:
@@ -9216,7 +9235,7 @@ tr376:
 			goto st257
 		}
 		goto st0
-tr377:
+tr378:
 //line sip.rl:189
 
 	addr = new(Addr)
@@ -9229,7 +9248,7 @@ tr377:
 //line sip.rl:253
  {goto st188 } 
 	goto st778
-tr382:
+tr383:
 //line sip.rl:189
 
 	addr = new(Addr)
@@ -9242,7 +9261,7 @@ tr382:
 //line sip.rl:253
  {goto st188 } 
 	goto st778
-tr386:
+tr387:
 //line sip.rl:189
 
 	addr = new(Addr)
@@ -9260,7 +9279,7 @@ tr386:
 			goto _test_eof778
 		}
 	st_case_778:
-//line msg_parse.go:9255
+//line msg_parse.go:9274
 		goto st0
 	st259:
 		if p++; p == pe {
@@ -9300,7 +9319,7 @@ tr386:
 		case 39:
 			goto st257
 		case 60:
-			goto tr382
+			goto tr383
 		case 126:
 			goto st257
 		}
@@ -9327,7 +9346,7 @@ tr386:
 			goto st257
 		}
 		goto st0
-tr378:
+tr379:
 //line sip.rl:80
 
 	mark = p
@@ -9338,7 +9357,7 @@ tr378:
 			goto _test_eof262
 		}
 	st_case_262:
-//line msg_parse.go:9333
+//line msg_parse.go:9352
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9362,7 +9381,7 @@ tr378:
 		case 43:
 			goto st262
 		case 58:
-			goto tr386
+			goto tr387
 		case 126:
 			goto st257
 		case 525:
@@ -9405,40 +9424,40 @@ tr378:
 		}
 		switch _widec {
 		case 9:
-			goto tr387
+			goto tr388
 		case 269:
-			goto tr393
-		case 525:
 			goto tr394
+		case 525:
+			goto tr395
 		}
 		switch {
 		case _widec < 224:
 			switch {
 			case _widec > 127:
 				if 192 <= _widec && _widec <= 223 {
-					goto tr388
+					goto tr389
 				}
 			case _widec >= 32:
-				goto tr387
+				goto tr388
 			}
 		case _widec > 239:
 			switch {
 			case _widec < 248:
 				if 240 <= _widec && _widec <= 247 {
-					goto tr390
+					goto tr391
 				}
 			case _widec > 251:
 				if 252 <= _widec && _widec <= 253 {
-					goto tr392
+					goto tr393
 				}
 			default:
-				goto tr391
+				goto tr392
 			}
 		default:
-			goto tr389
+			goto tr390
 		}
 		goto st0
-tr387:
+tr388:
 //line sip.rl:80
 
 	mark = p
@@ -9449,7 +9468,7 @@ tr387:
 			goto _test_eof264
 		}
 	st_case_264:
-//line msg_parse.go:9444
+//line msg_parse.go:9463
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9492,7 +9511,7 @@ tr387:
 			goto st266
 		}
 		goto st0
-tr388:
+tr389:
 //line sip.rl:80
 
 	mark = p
@@ -9503,12 +9522,12 @@ tr388:
 			goto _test_eof265
 		}
 	st_case_265:
-//line msg_parse.go:9498
+//line msg_parse.go:9517
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st264
 		}
 		goto st0
-tr389:
+tr390:
 //line sip.rl:80
 
 	mark = p
@@ -9519,12 +9538,12 @@ tr389:
 			goto _test_eof266
 		}
 	st_case_266:
-//line msg_parse.go:9514
+//line msg_parse.go:9533
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st265
 		}
 		goto st0
-tr390:
+tr391:
 //line sip.rl:80
 
 	mark = p
@@ -9535,12 +9554,12 @@ tr390:
 			goto _test_eof267
 		}
 	st_case_267:
-//line msg_parse.go:9530
+//line msg_parse.go:9549
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st266
 		}
 		goto st0
-tr391:
+tr392:
 //line sip.rl:80
 
 	mark = p
@@ -9551,12 +9570,12 @@ tr391:
 			goto _test_eof268
 		}
 	st_case_268:
-//line msg_parse.go:9546
+//line msg_parse.go:9565
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st267
 		}
 		goto st0
-tr392:
+tr393:
 //line sip.rl:80
 
 	mark = p
@@ -9567,12 +9586,12 @@ tr392:
 			goto _test_eof269
 		}
 	st_case_269:
-//line msg_parse.go:9562
+//line msg_parse.go:9581
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st268
 		}
 		goto st0
-tr393:
+tr394:
 //line sip.rl:80
 
 	mark = p
@@ -9583,12 +9602,12 @@ tr393:
 			goto _test_eof270
 		}
 	st_case_270:
-//line msg_parse.go:9578
+//line msg_parse.go:9597
 		if data[p] == 10 {
-			goto tr403
+			goto tr404
 		}
 		goto st0
-tr403:
+tr404:
 //line sip.rl:180
 {
 	b := data[mark:p - 1]
@@ -9606,9 +9625,9 @@ tr403:
 			goto _test_eof779
 		}
 	st_case_779:
-//line msg_parse.go:9601
+//line msg_parse.go:9620
 		goto st0
-tr394:
+tr395:
 //line sip.rl:80
 
 	mark = p
@@ -9619,7 +9638,7 @@ tr394:
 			goto _test_eof271
 		}
 	st_case_271:
-//line msg_parse.go:9614
+//line msg_parse.go:9633
 		if data[p] == 10 {
 			goto st272
 		}
@@ -9681,9 +9700,9 @@ tr394:
 	st_case_274:
 		switch data[p] {
 		case 9:
-			goto tr406
+			goto tr407
 		case 32:
-			goto tr406
+			goto tr407
 		case 33:
 			goto st274
 		case 37:
@@ -9691,7 +9710,7 @@ tr394:
 		case 39:
 			goto st274
 		case 58:
-			goto tr407
+			goto tr408
 		case 126:
 			goto st274
 		}
@@ -9718,7 +9737,7 @@ tr394:
 			goto st274
 		}
 		goto st0
-tr406:
+tr407:
 //line sip.rl:176
 
 	name = string(data[mark:p])
@@ -9729,7 +9748,7 @@ tr406:
 			goto _test_eof275
 		}
 	st_case_275:
-//line msg_parse.go:9724
+//line msg_parse.go:9743
 		switch data[p] {
 		case 9:
 			goto st275
@@ -9739,7 +9758,7 @@ tr406:
 			goto st276
 		}
 		goto st0
-tr407:
+tr408:
 //line sip.rl:176
 
 	name = string(data[mark:p])
@@ -9750,7 +9769,7 @@ tr407:
 			goto _test_eof276
 		}
 	st_case_276:
-//line msg_parse.go:9745
+//line msg_parse.go:9764
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9764,20 +9783,20 @@ tr407:
 		case 32:
 			goto st276
 		case 269:
-			goto tr410
+			goto tr411
 		case 525:
 			goto st277
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr410
+				goto tr411
 			}
 		default:
-			goto tr410
+			goto tr411
 		}
 		goto st0
-tr410:
+tr411:
 //line sip.rl:532
 value=nil
 //line sip.rl:72
@@ -9793,7 +9812,7 @@ value=nil
 			goto _test_eof780
 		}
 	st_case_780:
-//line msg_parse.go:9788
+//line msg_parse.go:9807
 		goto st0
 	st277:
 		if p++; p == pe {
@@ -9827,7 +9846,7 @@ value=nil
 		case 32:
 			goto st279
 		}
-		goto tr410
+		goto tr411
 	st280:
 		if p++; p == pe {
 			goto _test_eof280
@@ -9842,13 +9861,13 @@ value=nil
 		}
 		switch _widec {
 		case 33:
-			goto tr414
+			goto tr415
 		case 37:
-			goto tr414
+			goto tr415
 		case 39:
-			goto tr414
+			goto tr415
 		case 126:
-			goto tr414
+			goto tr415
 		case 269:
 			goto st764
 		}
@@ -9857,25 +9876,25 @@ value=nil
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto tr414
+					goto tr415
 				}
 			case _widec >= 42:
-				goto tr414
+				goto tr415
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr414
+					goto tr415
 				}
 			case _widec >= 65:
-				goto tr414
+				goto tr415
 			}
 		default:
-			goto tr414
+			goto tr415
 		}
 		goto st0
-tr414:
+tr415:
 //line sip.rl:80
 
 	mark = p
@@ -9891,7 +9910,7 @@ tr414:
 			goto _test_eof281
 		}
 	st_case_281:
-//line msg_parse.go:9886
+//line msg_parse.go:9905
 		switch data[p] {
 		case 65:
 			goto st282
@@ -9966,7 +9985,7 @@ tr414:
 		case 119:
 			goto st742
 		}
-		goto tr416
+		goto tr417
 	st282:
 		if p++; p == pe {
 			goto _test_eof282
@@ -9974,11 +9993,11 @@ tr414:
 	st_case_282:
 		switch data[p] {
 		case 9:
-			goto tr435
+			goto tr436
 		case 32:
-			goto tr435
-		case 58:
 			goto tr436
+		case 58:
+			goto tr437
 		case 67:
 			goto st288
 		case 76:
@@ -9992,154 +10011,154 @@ tr414:
 		case 117:
 			goto st336
 		}
-		goto tr416
-tr435:
+		goto tr417
+tr436:
 //line sip.rl:451
 value=&msg.AcceptContact
 	goto st283
-tr450:
+tr451:
 //line sip.rl:450
 value=&msg.Accept
 	goto st283
-tr469:
+tr470:
 //line sip.rl:452
 value=&msg.AcceptEncoding
 	goto st283
-tr478:
+tr479:
 //line sip.rl:453
 value=&msg.AcceptLanguage
 	goto st283
-tr489:
+tr490:
 //line sip.rl:456
 value=&msg.AlertInfo
 	goto st283
-tr493:
+tr494:
 //line sip.rl:454
 value=&msg.Allow
 	goto st283
-tr502:
+tr503:
 //line sip.rl:455
 value=&msg.AllowEvents
 	goto st283
-tr522:
+tr523:
 //line sip.rl:457
 value=&msg.AuthenticationInfo
 	goto st283
-tr532:
+tr533:
 //line sip.rl:458
 value=&msg.Authorization
 	goto st283
-tr534:
+tr535:
 //line sip.rl:475
 value=&msg.ReferredBy
 	goto st283
-tr564:
+tr565:
 //line sip.rl:462
 value=&msg.CallInfo
 	goto st283
-tr597:
+tr598:
 //line sip.rl:459
 value=&msg.ContentDisposition
 	goto st283
-tr606:
+tr607:
 //line sip.rl:461
 value=&msg.ContentEncoding
 	goto st283
-tr616:
+tr617:
 //line sip.rl:460
 value=&msg.ContentLanguage
 	goto st283
-tr651:
+tr652:
 //line sip.rl:463
 value=&msg.Date
 	goto st283
-tr664:
+tr665:
 //line sip.rl:464
 value=&msg.ErrorInfo
 	goto st283
-tr669:
+tr670:
 //line sip.rl:465
 value=&msg.Event
 	goto st283
-tr698:
+tr699:
 //line sip.rl:466
 value=&msg.InReplyTo
 	goto st283
-tr700:
+tr701:
 //line sip.rl:480
 value=&msg.Supported
 	goto st283
-tr739:
+tr740:
 //line sip.rl:468
 value=&msg.MIMEVersion
 	goto st283
-tr767:
+tr768:
 //line sip.rl:469
 value=&msg.Organization
 	goto st283
-tr797:
+tr798:
 //line sip.rl:470
 value=&msg.Priority
 	goto st283
-tr816:
+tr817:
 //line sip.rl:471
 value=&msg.ProxyAuthenticate
 	goto st283
-tr826:
+tr827:
 //line sip.rl:472
 value=&msg.ProxyAuthorization
 	goto st283
-tr834:
+tr835:
 //line sip.rl:473
 value=&msg.ProxyRequire
 	goto st283
-tr836:
+tr837:
 //line sip.rl:474
 value=&msg.ReferTo
 	goto st283
-tr886:
+tr887:
 //line sip.rl:467
 value=&msg.ReplyTo
 	goto st283
-tr892:
+tr893:
 //line sip.rl:476
 value=&msg.Require
 	goto st283
-tr902:
+tr903:
 //line sip.rl:477
 value=&msg.RetryAfter
 	goto st283
-tr909:
+tr910:
 //line sip.rl:479
 value=&msg.Subject
 	goto st283
-tr917:
+tr918:
 //line sip.rl:478
 value=&msg.Server
 	goto st283
-tr941:
+tr942:
 //line sip.rl:481
 value=&msg.Timestamp
 	goto st283
-tr943:
+tr944:
 //line sip.rl:454
 value=&msg.Allow
 //line sip.rl:455
 value=&msg.AllowEvents
 	goto st283
-tr956:
+tr957:
 //line sip.rl:482
 value=&msg.Unsupported
 	goto st283
-tr966:
+tr967:
 //line sip.rl:483
 value=&msg.UserAgent
 	goto st283
-tr983:
+tr984:
 //line sip.rl:484
 value=&msg.Warning
 	goto st283
-tr999:
+tr1000:
 //line sip.rl:485
 value=&msg.WWWAuthenticate
 	goto st283
@@ -10148,7 +10167,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof283
 		}
 	st_case_283:
-//line msg_parse.go:10143
+//line msg_parse.go:10162
 		switch data[p] {
 		case 9:
 			goto st283
@@ -10158,153 +10177,153 @@ value=&msg.WWWAuthenticate
 			goto st284
 		}
 		goto st0
-tr436:
+tr437:
 //line sip.rl:451
 value=&msg.AcceptContact
 	goto st284
-tr452:
+tr453:
 //line sip.rl:450
 value=&msg.Accept
 	goto st284
-tr470:
+tr471:
 //line sip.rl:452
 value=&msg.AcceptEncoding
 	goto st284
-tr479:
+tr480:
 //line sip.rl:453
 value=&msg.AcceptLanguage
 	goto st284
-tr490:
+tr491:
 //line sip.rl:456
 value=&msg.AlertInfo
 	goto st284
-tr495:
+tr496:
 //line sip.rl:454
 value=&msg.Allow
 	goto st284
-tr503:
+tr504:
 //line sip.rl:455
 value=&msg.AllowEvents
 	goto st284
-tr523:
+tr524:
 //line sip.rl:457
 value=&msg.AuthenticationInfo
 	goto st284
-tr533:
+tr534:
 //line sip.rl:458
 value=&msg.Authorization
 	goto st284
-tr535:
+tr536:
 //line sip.rl:475
 value=&msg.ReferredBy
 	goto st284
-tr565:
+tr566:
 //line sip.rl:462
 value=&msg.CallInfo
 	goto st284
-tr598:
+tr599:
 //line sip.rl:459
 value=&msg.ContentDisposition
 	goto st284
-tr607:
+tr608:
 //line sip.rl:461
 value=&msg.ContentEncoding
 	goto st284
-tr617:
+tr618:
 //line sip.rl:460
 value=&msg.ContentLanguage
 	goto st284
-tr652:
+tr653:
 //line sip.rl:463
 value=&msg.Date
 	goto st284
-tr665:
+tr666:
 //line sip.rl:464
 value=&msg.ErrorInfo
 	goto st284
-tr670:
+tr671:
 //line sip.rl:465
 value=&msg.Event
 	goto st284
-tr699:
+tr700:
 //line sip.rl:466
 value=&msg.InReplyTo
 	goto st284
-tr701:
+tr702:
 //line sip.rl:480
 value=&msg.Supported
 	goto st284
-tr740:
+tr741:
 //line sip.rl:468
 value=&msg.MIMEVersion
 	goto st284
-tr768:
+tr769:
 //line sip.rl:469
 value=&msg.Organization
 	goto st284
-tr798:
+tr799:
 //line sip.rl:470
 value=&msg.Priority
 	goto st284
-tr817:
+tr818:
 //line sip.rl:471
 value=&msg.ProxyAuthenticate
 	goto st284
-tr827:
+tr828:
 //line sip.rl:472
 value=&msg.ProxyAuthorization
 	goto st284
-tr835:
+tr836:
 //line sip.rl:473
 value=&msg.ProxyRequire
 	goto st284
-tr837:
+tr838:
 //line sip.rl:474
 value=&msg.ReferTo
 	goto st284
-tr887:
+tr888:
 //line sip.rl:467
 value=&msg.ReplyTo
 	goto st284
-tr893:
+tr894:
 //line sip.rl:476
 value=&msg.Require
 	goto st284
-tr903:
+tr904:
 //line sip.rl:477
 value=&msg.RetryAfter
 	goto st284
-tr910:
+tr911:
 //line sip.rl:479
 value=&msg.Subject
 	goto st284
-tr918:
+tr919:
 //line sip.rl:478
 value=&msg.Server
 	goto st284
-tr942:
+tr943:
 //line sip.rl:481
 value=&msg.Timestamp
 	goto st284
-tr944:
+tr945:
 //line sip.rl:454
 value=&msg.Allow
 //line sip.rl:455
 value=&msg.AllowEvents
 	goto st284
-tr957:
+tr958:
 //line sip.rl:482
 value=&msg.Unsupported
 	goto st284
-tr967:
+tr968:
 //line sip.rl:483
 value=&msg.UserAgent
 	goto st284
-tr984:
+tr985:
 //line sip.rl:484
 value=&msg.Warning
 	goto st284
-tr1000:
+tr1001:
 //line sip.rl:485
 value=&msg.WWWAuthenticate
 	goto st284
@@ -10313,7 +10332,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof284
 		}
 	st_case_284:
-//line msg_parse.go:10308
+//line msg_parse.go:10327
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -10327,24 +10346,24 @@ value=&msg.WWWAuthenticate
 		case 32:
 			goto st284
 		case 269:
-			goto tr442
+			goto tr443
 		case 525:
 			goto st285
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr442
+				goto tr443
 			}
 		default:
-			goto tr442
+			goto tr443
 		}
 		goto st0
-tr559:
+tr560:
 //line sip.rl:257
  {goto st280 } 
 	goto st781
-tr442:
+tr443:
 //line sip.rl:72
 
 	p--
@@ -10353,7 +10372,7 @@ tr442:
 //line sip.rl:258
  {goto st263 } 
 	goto st781
-tr541:
+tr542:
 //line sip.rl:72
 
 	p--
@@ -10362,7 +10381,7 @@ tr541:
 //line sip.rl:256
  {goto st34 } 
 	goto st781
-tr576:
+tr577:
 //line sip.rl:534
 value=nil
 //line sip.rl:72
@@ -10373,7 +10392,7 @@ value=nil
 //line sip.rl:252
  {goto st256 } 
 	goto st781
-tr971:
+tr972:
 //line sip.rl:137
 
 	via = new(Via)
@@ -10386,7 +10405,7 @@ tr971:
 //line sip.rl:259
  {goto st103 } 
 	goto st781
-tr1001:
+tr1002:
 //line sip.rl:76
 
 	{p++; cs = 781; goto _out }
@@ -10397,7 +10416,7 @@ tr1001:
 			goto _test_eof781
 		}
 	st_case_781:
-//line msg_parse.go:10392
+//line msg_parse.go:10411
 		goto st0
 	st285:
 		if p++; p == pe {
@@ -10431,7 +10450,7 @@ tr1001:
 		case 32:
 			goto st287
 		}
-		goto tr442
+		goto tr443
 	st288:
 		if p++; p == pe {
 			goto _test_eof288
@@ -10443,7 +10462,7 @@ tr1001:
 		case 99:
 			goto st289
 		}
-		goto tr416
+		goto tr417
 	st289:
 		if p++; p == pe {
 			goto _test_eof289
@@ -10455,7 +10474,7 @@ tr1001:
 		case 101:
 			goto st290
 		}
-		goto tr416
+		goto tr417
 	st290:
 		if p++; p == pe {
 			goto _test_eof290
@@ -10467,7 +10486,7 @@ tr1001:
 		case 112:
 			goto st291
 		}
-		goto tr416
+		goto tr417
 	st291:
 		if p++; p == pe {
 			goto _test_eof291
@@ -10479,7 +10498,7 @@ tr1001:
 		case 116:
 			goto st292
 		}
-		goto tr416
+		goto tr417
 	st292:
 		if p++; p == pe {
 			goto _test_eof292
@@ -10487,15 +10506,15 @@ tr1001:
 	st_case_292:
 		switch data[p] {
 		case 9:
-			goto tr450
+			goto tr451
 		case 32:
-			goto tr450
+			goto tr451
 		case 45:
 			goto st293
 		case 58:
-			goto tr452
+			goto tr453
 		}
-		goto tr416
+		goto tr417
 	st293:
 		if p++; p == pe {
 			goto _test_eof293
@@ -10515,7 +10534,7 @@ tr1001:
 		case 108:
 			goto st309
 		}
-		goto tr416
+		goto tr417
 	st294:
 		if p++; p == pe {
 			goto _test_eof294
@@ -10527,7 +10546,7 @@ tr1001:
 		case 111:
 			goto st295
 		}
-		goto tr416
+		goto tr417
 	st295:
 		if p++; p == pe {
 			goto _test_eof295
@@ -10539,7 +10558,7 @@ tr1001:
 		case 110:
 			goto st296
 		}
-		goto tr416
+		goto tr417
 	st296:
 		if p++; p == pe {
 			goto _test_eof296
@@ -10551,7 +10570,7 @@ tr1001:
 		case 116:
 			goto st297
 		}
-		goto tr416
+		goto tr417
 	st297:
 		if p++; p == pe {
 			goto _test_eof297
@@ -10563,7 +10582,7 @@ tr1001:
 		case 97:
 			goto st298
 		}
-		goto tr416
+		goto tr417
 	st298:
 		if p++; p == pe {
 			goto _test_eof298
@@ -10575,7 +10594,7 @@ tr1001:
 		case 99:
 			goto st299
 		}
-		goto tr416
+		goto tr417
 	st299:
 		if p++; p == pe {
 			goto _test_eof299
@@ -10587,7 +10606,7 @@ tr1001:
 		case 116:
 			goto st300
 		}
-		goto tr416
+		goto tr417
 	st300:
 		if p++; p == pe {
 			goto _test_eof300
@@ -10595,13 +10614,13 @@ tr1001:
 	st_case_300:
 		switch data[p] {
 		case 9:
-			goto tr435
+			goto tr436
 		case 32:
-			goto tr435
-		case 58:
 			goto tr436
+		case 58:
+			goto tr437
 		}
-		goto tr416
+		goto tr417
 	st301:
 		if p++; p == pe {
 			goto _test_eof301
@@ -10613,7 +10632,7 @@ tr1001:
 		case 110:
 			goto st302
 		}
-		goto tr416
+		goto tr417
 	st302:
 		if p++; p == pe {
 			goto _test_eof302
@@ -10625,7 +10644,7 @@ tr1001:
 		case 99:
 			goto st303
 		}
-		goto tr416
+		goto tr417
 	st303:
 		if p++; p == pe {
 			goto _test_eof303
@@ -10637,7 +10656,7 @@ tr1001:
 		case 111:
 			goto st304
 		}
-		goto tr416
+		goto tr417
 	st304:
 		if p++; p == pe {
 			goto _test_eof304
@@ -10649,7 +10668,7 @@ tr1001:
 		case 100:
 			goto st305
 		}
-		goto tr416
+		goto tr417
 	st305:
 		if p++; p == pe {
 			goto _test_eof305
@@ -10661,7 +10680,7 @@ tr1001:
 		case 105:
 			goto st306
 		}
-		goto tr416
+		goto tr417
 	st306:
 		if p++; p == pe {
 			goto _test_eof306
@@ -10673,7 +10692,7 @@ tr1001:
 		case 110:
 			goto st307
 		}
-		goto tr416
+		goto tr417
 	st307:
 		if p++; p == pe {
 			goto _test_eof307
@@ -10685,7 +10704,7 @@ tr1001:
 		case 103:
 			goto st308
 		}
-		goto tr416
+		goto tr417
 	st308:
 		if p++; p == pe {
 			goto _test_eof308
@@ -10693,13 +10712,13 @@ tr1001:
 	st_case_308:
 		switch data[p] {
 		case 9:
-			goto tr469
+			goto tr470
 		case 32:
-			goto tr469
-		case 58:
 			goto tr470
+		case 58:
+			goto tr471
 		}
-		goto tr416
+		goto tr417
 	st309:
 		if p++; p == pe {
 			goto _test_eof309
@@ -10711,7 +10730,7 @@ tr1001:
 		case 97:
 			goto st310
 		}
-		goto tr416
+		goto tr417
 	st310:
 		if p++; p == pe {
 			goto _test_eof310
@@ -10723,7 +10742,7 @@ tr1001:
 		case 110:
 			goto st311
 		}
-		goto tr416
+		goto tr417
 	st311:
 		if p++; p == pe {
 			goto _test_eof311
@@ -10735,7 +10754,7 @@ tr1001:
 		case 103:
 			goto st312
 		}
-		goto tr416
+		goto tr417
 	st312:
 		if p++; p == pe {
 			goto _test_eof312
@@ -10747,7 +10766,7 @@ tr1001:
 		case 117:
 			goto st313
 		}
-		goto tr416
+		goto tr417
 	st313:
 		if p++; p == pe {
 			goto _test_eof313
@@ -10759,7 +10778,7 @@ tr1001:
 		case 97:
 			goto st314
 		}
-		goto tr416
+		goto tr417
 	st314:
 		if p++; p == pe {
 			goto _test_eof314
@@ -10771,7 +10790,7 @@ tr1001:
 		case 103:
 			goto st315
 		}
-		goto tr416
+		goto tr417
 	st315:
 		if p++; p == pe {
 			goto _test_eof315
@@ -10783,7 +10802,7 @@ tr1001:
 		case 101:
 			goto st316
 		}
-		goto tr416
+		goto tr417
 	st316:
 		if p++; p == pe {
 			goto _test_eof316
@@ -10791,13 +10810,13 @@ tr1001:
 	st_case_316:
 		switch data[p] {
 		case 9:
-			goto tr478
+			goto tr479
 		case 32:
-			goto tr478
-		case 58:
 			goto tr479
+		case 58:
+			goto tr480
 		}
-		goto tr416
+		goto tr417
 	st317:
 		if p++; p == pe {
 			goto _test_eof317
@@ -10813,7 +10832,7 @@ tr1001:
 		case 108:
 			goto st326
 		}
-		goto tr416
+		goto tr417
 	st318:
 		if p++; p == pe {
 			goto _test_eof318
@@ -10825,7 +10844,7 @@ tr1001:
 		case 114:
 			goto st319
 		}
-		goto tr416
+		goto tr417
 	st319:
 		if p++; p == pe {
 			goto _test_eof319
@@ -10837,7 +10856,7 @@ tr1001:
 		case 116:
 			goto st320
 		}
-		goto tr416
+		goto tr417
 	st320:
 		if p++; p == pe {
 			goto _test_eof320
@@ -10846,7 +10865,7 @@ tr1001:
 		if data[p] == 45 {
 			goto st321
 		}
-		goto tr416
+		goto tr417
 	st321:
 		if p++; p == pe {
 			goto _test_eof321
@@ -10858,7 +10877,7 @@ tr1001:
 		case 105:
 			goto st322
 		}
-		goto tr416
+		goto tr417
 	st322:
 		if p++; p == pe {
 			goto _test_eof322
@@ -10870,7 +10889,7 @@ tr1001:
 		case 110:
 			goto st323
 		}
-		goto tr416
+		goto tr417
 	st323:
 		if p++; p == pe {
 			goto _test_eof323
@@ -10882,7 +10901,7 @@ tr1001:
 		case 102:
 			goto st324
 		}
-		goto tr416
+		goto tr417
 	st324:
 		if p++; p == pe {
 			goto _test_eof324
@@ -10894,7 +10913,7 @@ tr1001:
 		case 111:
 			goto st325
 		}
-		goto tr416
+		goto tr417
 	st325:
 		if p++; p == pe {
 			goto _test_eof325
@@ -10902,13 +10921,13 @@ tr1001:
 	st_case_325:
 		switch data[p] {
 		case 9:
-			goto tr489
+			goto tr490
 		case 32:
-			goto tr489
-		case 58:
 			goto tr490
+		case 58:
+			goto tr491
 		}
-		goto tr416
+		goto tr417
 	st326:
 		if p++; p == pe {
 			goto _test_eof326
@@ -10920,7 +10939,7 @@ tr1001:
 		case 111:
 			goto st327
 		}
-		goto tr416
+		goto tr417
 	st327:
 		if p++; p == pe {
 			goto _test_eof327
@@ -10932,7 +10951,7 @@ tr1001:
 		case 119:
 			goto st328
 		}
-		goto tr416
+		goto tr417
 	st328:
 		if p++; p == pe {
 			goto _test_eof328
@@ -10940,15 +10959,15 @@ tr1001:
 	st_case_328:
 		switch data[p] {
 		case 9:
-			goto tr493
+			goto tr494
 		case 32:
-			goto tr493
+			goto tr494
 		case 45:
 			goto st329
 		case 58:
-			goto tr495
+			goto tr496
 		}
-		goto tr416
+		goto tr417
 	st329:
 		if p++; p == pe {
 			goto _test_eof329
@@ -10960,7 +10979,7 @@ tr1001:
 		case 101:
 			goto st330
 		}
-		goto tr416
+		goto tr417
 	st330:
 		if p++; p == pe {
 			goto _test_eof330
@@ -10972,7 +10991,7 @@ tr1001:
 		case 118:
 			goto st331
 		}
-		goto tr416
+		goto tr417
 	st331:
 		if p++; p == pe {
 			goto _test_eof331
@@ -10984,7 +11003,7 @@ tr1001:
 		case 101:
 			goto st332
 		}
-		goto tr416
+		goto tr417
 	st332:
 		if p++; p == pe {
 			goto _test_eof332
@@ -10996,7 +11015,7 @@ tr1001:
 		case 110:
 			goto st333
 		}
-		goto tr416
+		goto tr417
 	st333:
 		if p++; p == pe {
 			goto _test_eof333
@@ -11008,7 +11027,7 @@ tr1001:
 		case 116:
 			goto st334
 		}
-		goto tr416
+		goto tr417
 	st334:
 		if p++; p == pe {
 			goto _test_eof334
@@ -11020,7 +11039,7 @@ tr1001:
 		case 115:
 			goto st335
 		}
-		goto tr416
+		goto tr417
 	st335:
 		if p++; p == pe {
 			goto _test_eof335
@@ -11028,13 +11047,13 @@ tr1001:
 	st_case_335:
 		switch data[p] {
 		case 9:
-			goto tr502
+			goto tr503
 		case 32:
-			goto tr502
-		case 58:
 			goto tr503
+		case 58:
+			goto tr504
 		}
-		goto tr416
+		goto tr417
 	st336:
 		if p++; p == pe {
 			goto _test_eof336
@@ -11046,7 +11065,7 @@ tr1001:
 		case 116:
 			goto st337
 		}
-		goto tr416
+		goto tr417
 	st337:
 		if p++; p == pe {
 			goto _test_eof337
@@ -11058,7 +11077,7 @@ tr1001:
 		case 104:
 			goto st338
 		}
-		goto tr416
+		goto tr417
 	st338:
 		if p++; p == pe {
 			goto _test_eof338
@@ -11074,7 +11093,7 @@ tr1001:
 		case 111:
 			goto st354
 		}
-		goto tr416
+		goto tr417
 	st339:
 		if p++; p == pe {
 			goto _test_eof339
@@ -11086,7 +11105,7 @@ tr1001:
 		case 110:
 			goto st340
 		}
-		goto tr416
+		goto tr417
 	st340:
 		if p++; p == pe {
 			goto _test_eof340
@@ -11098,7 +11117,7 @@ tr1001:
 		case 116:
 			goto st341
 		}
-		goto tr416
+		goto tr417
 	st341:
 		if p++; p == pe {
 			goto _test_eof341
@@ -11110,7 +11129,7 @@ tr1001:
 		case 105:
 			goto st342
 		}
-		goto tr416
+		goto tr417
 	st342:
 		if p++; p == pe {
 			goto _test_eof342
@@ -11122,7 +11141,7 @@ tr1001:
 		case 99:
 			goto st343
 		}
-		goto tr416
+		goto tr417
 	st343:
 		if p++; p == pe {
 			goto _test_eof343
@@ -11134,7 +11153,7 @@ tr1001:
 		case 97:
 			goto st344
 		}
-		goto tr416
+		goto tr417
 	st344:
 		if p++; p == pe {
 			goto _test_eof344
@@ -11146,7 +11165,7 @@ tr1001:
 		case 116:
 			goto st345
 		}
-		goto tr416
+		goto tr417
 	st345:
 		if p++; p == pe {
 			goto _test_eof345
@@ -11158,7 +11177,7 @@ tr1001:
 		case 105:
 			goto st346
 		}
-		goto tr416
+		goto tr417
 	st346:
 		if p++; p == pe {
 			goto _test_eof346
@@ -11170,7 +11189,7 @@ tr1001:
 		case 111:
 			goto st347
 		}
-		goto tr416
+		goto tr417
 	st347:
 		if p++; p == pe {
 			goto _test_eof347
@@ -11182,7 +11201,7 @@ tr1001:
 		case 110:
 			goto st348
 		}
-		goto tr416
+		goto tr417
 	st348:
 		if p++; p == pe {
 			goto _test_eof348
@@ -11191,7 +11210,7 @@ tr1001:
 		if data[p] == 45 {
 			goto st349
 		}
-		goto tr416
+		goto tr417
 	st349:
 		if p++; p == pe {
 			goto _test_eof349
@@ -11203,7 +11222,7 @@ tr1001:
 		case 105:
 			goto st350
 		}
-		goto tr416
+		goto tr417
 	st350:
 		if p++; p == pe {
 			goto _test_eof350
@@ -11215,7 +11234,7 @@ tr1001:
 		case 110:
 			goto st351
 		}
-		goto tr416
+		goto tr417
 	st351:
 		if p++; p == pe {
 			goto _test_eof351
@@ -11227,7 +11246,7 @@ tr1001:
 		case 102:
 			goto st352
 		}
-		goto tr416
+		goto tr417
 	st352:
 		if p++; p == pe {
 			goto _test_eof352
@@ -11239,7 +11258,7 @@ tr1001:
 		case 111:
 			goto st353
 		}
-		goto tr416
+		goto tr417
 	st353:
 		if p++; p == pe {
 			goto _test_eof353
@@ -11247,13 +11266,13 @@ tr1001:
 	st_case_353:
 		switch data[p] {
 		case 9:
-			goto tr522
+			goto tr523
 		case 32:
-			goto tr522
-		case 58:
 			goto tr523
+		case 58:
+			goto tr524
 		}
-		goto tr416
+		goto tr417
 	st354:
 		if p++; p == pe {
 			goto _test_eof354
@@ -11265,7 +11284,7 @@ tr1001:
 		case 114:
 			goto st355
 		}
-		goto tr416
+		goto tr417
 	st355:
 		if p++; p == pe {
 			goto _test_eof355
@@ -11277,7 +11296,7 @@ tr1001:
 		case 105:
 			goto st356
 		}
-		goto tr416
+		goto tr417
 	st356:
 		if p++; p == pe {
 			goto _test_eof356
@@ -11289,7 +11308,7 @@ tr1001:
 		case 122:
 			goto st357
 		}
-		goto tr416
+		goto tr417
 	st357:
 		if p++; p == pe {
 			goto _test_eof357
@@ -11301,7 +11320,7 @@ tr1001:
 		case 97:
 			goto st358
 		}
-		goto tr416
+		goto tr417
 	st358:
 		if p++; p == pe {
 			goto _test_eof358
@@ -11313,7 +11332,7 @@ tr1001:
 		case 116:
 			goto st359
 		}
-		goto tr416
+		goto tr417
 	st359:
 		if p++; p == pe {
 			goto _test_eof359
@@ -11325,7 +11344,7 @@ tr1001:
 		case 105:
 			goto st360
 		}
-		goto tr416
+		goto tr417
 	st360:
 		if p++; p == pe {
 			goto _test_eof360
@@ -11337,7 +11356,7 @@ tr1001:
 		case 111:
 			goto st361
 		}
-		goto tr416
+		goto tr417
 	st361:
 		if p++; p == pe {
 			goto _test_eof361
@@ -11349,7 +11368,7 @@ tr1001:
 		case 110:
 			goto st362
 		}
-		goto tr416
+		goto tr417
 	st362:
 		if p++; p == pe {
 			goto _test_eof362
@@ -11357,13 +11376,13 @@ tr1001:
 	st_case_362:
 		switch data[p] {
 		case 9:
-			goto tr532
+			goto tr533
 		case 32:
-			goto tr532
-		case 58:
 			goto tr533
+		case 58:
+			goto tr534
 		}
-		goto tr416
+		goto tr417
 	st363:
 		if p++; p == pe {
 			goto _test_eof363
@@ -11371,13 +11390,13 @@ tr1001:
 	st_case_363:
 		switch data[p] {
 		case 9:
-			goto tr534
+			goto tr535
 		case 32:
-			goto tr534
-		case 58:
 			goto tr535
+		case 58:
+			goto tr536
 		}
-		goto tr416
+		goto tr417
 	st364:
 		if p++; p == pe {
 			goto _test_eof364
@@ -11403,7 +11422,7 @@ tr1001:
 		case 115:
 			goto st445
 		}
-		goto tr416
+		goto tr417
 	st365:
 		if p++; p == pe {
 			goto _test_eof365
@@ -11436,17 +11455,17 @@ tr1001:
 		case 32:
 			goto st366
 		case 269:
-			goto tr541
+			goto tr542
 		case 525:
 			goto st367
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr541
+				goto tr542
 			}
 		default:
-			goto tr541
+			goto tr542
 		}
 		goto st0
 	st367:
@@ -11481,7 +11500,7 @@ tr1001:
 		case 32:
 			goto st369
 		}
-		goto tr541
+		goto tr542
 	st370:
 		if p++; p == pe {
 			goto _test_eof370
@@ -11493,7 +11512,7 @@ tr1001:
 		case 108:
 			goto st371
 		}
-		goto tr416
+		goto tr417
 	st371:
 		if p++; p == pe {
 			goto _test_eof371
@@ -11505,7 +11524,7 @@ tr1001:
 		case 108:
 			goto st372
 		}
-		goto tr416
+		goto tr417
 	st372:
 		if p++; p == pe {
 			goto _test_eof372
@@ -11514,7 +11533,7 @@ tr1001:
 		if data[p] == 45 {
 			goto st373
 		}
-		goto tr416
+		goto tr417
 	st373:
 		if p++; p == pe {
 			goto _test_eof373
@@ -11526,7 +11545,7 @@ tr1001:
 		case 105:
 			goto st374
 		}
-		goto tr416
+		goto tr417
 	st374:
 		if p++; p == pe {
 			goto _test_eof374
@@ -11542,7 +11561,7 @@ tr1001:
 		case 110:
 			goto st385
 		}
-		goto tr416
+		goto tr417
 	st375:
 		if p++; p == pe {
 			goto _test_eof375
@@ -11556,7 +11575,7 @@ tr1001:
 		case 58:
 			goto st377
 		}
-		goto tr416
+		goto tr417
 	st376:
 		if p++; p == pe {
 			goto _test_eof376
@@ -11589,9 +11608,9 @@ tr1001:
 		case 32:
 			goto st377
 		case 37:
-			goto tr553
+			goto tr554
 		case 60:
-			goto tr553
+			goto tr554
 		case 525:
 			goto st382
 		}
@@ -11600,33 +11619,33 @@ tr1001:
 			switch {
 			case _widec < 39:
 				if 33 <= _widec && _widec <= 34 {
-					goto tr553
+					goto tr554
 				}
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 58 {
-					goto tr553
+					goto tr554
 				}
 			default:
-				goto tr553
+				goto tr554
 			}
 		case _widec > 63:
 			switch {
 			case _widec < 95:
 				if 65 <= _widec && _widec <= 93 {
-					goto tr553
+					goto tr554
 				}
 			case _widec > 123:
 				if 125 <= _widec && _widec <= 126 {
-					goto tr553
+					goto tr554
 				}
 			default:
-				goto tr553
+				goto tr554
 			}
 		default:
-			goto tr553
+			goto tr554
 		}
 		goto st0
-tr553:
+tr554:
 //line sip.rl:80
 
 	mark = p
@@ -11637,7 +11656,7 @@ tr553:
 			goto _test_eof378
 		}
 	st_case_378:
-//line msg_parse.go:11632
+//line msg_parse.go:11651
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11653,7 +11672,7 @@ tr553:
 		case 64:
 			goto st379
 		case 269:
-			goto tr557
+			goto tr558
 		}
 		switch {
 		case _widec < 45:
@@ -11742,7 +11761,7 @@ tr553:
 		case 60:
 			goto st380
 		case 269:
-			goto tr557
+			goto tr558
 		}
 		switch {
 		case _widec < 62:
@@ -11775,13 +11794,13 @@ tr553:
 			goto st380
 		}
 		goto st0
-tr557:
+tr558:
 //line sip.rl:220
 
 	msg.CallID = string(data[mark:p])
 
 	goto st381
-tr643:
+tr644:
 //line sip.rl:236
 
 	msg.CSeqMethod = string(data[mark:p])
@@ -11792,9 +11811,9 @@ tr643:
 			goto _test_eof381
 		}
 	st_case_381:
-//line msg_parse.go:11787
+//line msg_parse.go:11806
 		if data[p] == 10 {
-			goto tr559
+			goto tr560
 		}
 		goto st0
 	st382:
@@ -11829,39 +11848,39 @@ tr643:
 		case 32:
 			goto st384
 		case 37:
-			goto tr553
+			goto tr554
 		case 60:
-			goto tr553
+			goto tr554
 		}
 		switch {
 		case data[p] < 62:
 			switch {
 			case data[p] < 39:
 				if 33 <= data[p] && data[p] <= 34 {
-					goto tr553
+					goto tr554
 				}
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 58 {
-					goto tr553
+					goto tr554
 				}
 			default:
-				goto tr553
+				goto tr554
 			}
 		case data[p] > 63:
 			switch {
 			case data[p] < 95:
 				if 65 <= data[p] && data[p] <= 93 {
-					goto tr553
+					goto tr554
 				}
 			case data[p] > 123:
 				if 125 <= data[p] && data[p] <= 126 {
-					goto tr553
+					goto tr554
 				}
 			default:
-				goto tr553
+				goto tr554
 			}
 		default:
-			goto tr553
+			goto tr554
 		}
 		goto st0
 	st385:
@@ -11875,7 +11894,7 @@ tr643:
 		case 102:
 			goto st386
 		}
-		goto tr416
+		goto tr417
 	st386:
 		if p++; p == pe {
 			goto _test_eof386
@@ -11887,7 +11906,7 @@ tr643:
 		case 111:
 			goto st387
 		}
-		goto tr416
+		goto tr417
 	st387:
 		if p++; p == pe {
 			goto _test_eof387
@@ -11895,13 +11914,13 @@ tr643:
 	st_case_387:
 		switch data[p] {
 		case 9:
-			goto tr564
+			goto tr565
 		case 32:
-			goto tr564
-		case 58:
 			goto tr565
+		case 58:
+			goto tr566
 		}
-		goto tr416
+		goto tr417
 	st388:
 		if p++; p == pe {
 			goto _test_eof388
@@ -11913,7 +11932,7 @@ tr643:
 		case 110:
 			goto st389
 		}
-		goto tr416
+		goto tr417
 	st389:
 		if p++; p == pe {
 			goto _test_eof389
@@ -11925,7 +11944,7 @@ tr643:
 		case 116:
 			goto st390
 		}
-		goto tr416
+		goto tr417
 	st390:
 		if p++; p == pe {
 			goto _test_eof390
@@ -11941,7 +11960,7 @@ tr643:
 		case 101:
 			goto st399
 		}
-		goto tr416
+		goto tr417
 	st391:
 		if p++; p == pe {
 			goto _test_eof391
@@ -11953,7 +11972,7 @@ tr643:
 		case 99:
 			goto st392
 		}
-		goto tr416
+		goto tr417
 	st392:
 		if p++; p == pe {
 			goto _test_eof392
@@ -11965,7 +11984,7 @@ tr643:
 		case 116:
 			goto st393
 		}
-		goto tr416
+		goto tr417
 	st393:
 		if p++; p == pe {
 			goto _test_eof393
@@ -11973,38 +11992,38 @@ tr643:
 	st_case_393:
 		switch data[p] {
 		case 9:
-			goto tr572
+			goto tr573
 		case 32:
-			goto tr572
-		case 58:
 			goto tr573
+		case 58:
+			goto tr574
 		}
-		goto tr416
-tr572:
+		goto tr417
+tr573:
 //line sip.rl:437
 addrp=lastAddr(&msg.Contact)
 	goto st394
-tr683:
+tr684:
 //line sip.rl:438
 addrp=lastAddr(&msg.From)
 	goto st394
-tr788:
+tr789:
 //line sip.rl:439
 addrp=lastAddr(&msg.PAssertedIdentity)
 	goto st394
-tr855:
+tr856:
 //line sip.rl:440
 addrp=lastAddr(&msg.RecordRoute)
 	goto st394
-tr879:
+tr880:
 //line sip.rl:441
 addrp=lastAddr(&msg.RemotePartyID)
 	goto st394
-tr907:
+tr908:
 //line sip.rl:442
 addrp=lastAddr(&msg.Route)
 	goto st394
-tr930:
+tr931:
 //line sip.rl:443
 addrp=lastAddr(&msg.To)
 	goto st394
@@ -12013,7 +12032,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof394
 		}
 	st_case_394:
-//line msg_parse.go:12008
+//line msg_parse.go:12027
 		switch data[p] {
 		case 9:
 			goto st394
@@ -12023,31 +12042,31 @@ addrp=lastAddr(&msg.To)
 			goto st395
 		}
 		goto st0
-tr573:
+tr574:
 //line sip.rl:437
 addrp=lastAddr(&msg.Contact)
 	goto st395
-tr684:
+tr685:
 //line sip.rl:438
 addrp=lastAddr(&msg.From)
 	goto st395
-tr789:
+tr790:
 //line sip.rl:439
 addrp=lastAddr(&msg.PAssertedIdentity)
 	goto st395
-tr856:
+tr857:
 //line sip.rl:440
 addrp=lastAddr(&msg.RecordRoute)
 	goto st395
-tr880:
+tr881:
 //line sip.rl:441
 addrp=lastAddr(&msg.RemotePartyID)
 	goto st395
-tr908:
+tr909:
 //line sip.rl:442
 addrp=lastAddr(&msg.Route)
 	goto st395
-tr931:
+tr932:
 //line sip.rl:443
 addrp=lastAddr(&msg.To)
 	goto st395
@@ -12056,7 +12075,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof395
 		}
 	st_case_395:
-//line msg_parse.go:12051
+//line msg_parse.go:12070
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12070,17 +12089,17 @@ addrp=lastAddr(&msg.To)
 		case 32:
 			goto st395
 		case 269:
-			goto tr576
+			goto tr577
 		case 525:
 			goto st396
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr576
+				goto tr577
 			}
 		default:
-			goto tr576
+			goto tr577
 		}
 		goto st0
 	st396:
@@ -12115,7 +12134,7 @@ addrp=lastAddr(&msg.To)
 		case 32:
 			goto st398
 		}
-		goto tr576
+		goto tr577
 	st399:
 		if p++; p == pe {
 			goto _test_eof399
@@ -12127,7 +12146,7 @@ addrp=lastAddr(&msg.To)
 		case 110:
 			goto st400
 		}
-		goto tr416
+		goto tr417
 	st400:
 		if p++; p == pe {
 			goto _test_eof400
@@ -12139,7 +12158,7 @@ addrp=lastAddr(&msg.To)
 		case 116:
 			goto st401
 		}
-		goto tr416
+		goto tr417
 	st401:
 		if p++; p == pe {
 			goto _test_eof401
@@ -12148,7 +12167,7 @@ addrp=lastAddr(&msg.To)
 		if data[p] == 45 {
 			goto st402
 		}
-		goto tr416
+		goto tr417
 	st402:
 		if p++; p == pe {
 			goto _test_eof402
@@ -12172,7 +12191,7 @@ addrp=lastAddr(&msg.To)
 		case 116:
 			goto st441
 		}
-		goto tr416
+		goto tr417
 	st403:
 		if p++; p == pe {
 			goto _test_eof403
@@ -12184,7 +12203,7 @@ addrp=lastAddr(&msg.To)
 		case 105:
 			goto st404
 		}
-		goto tr416
+		goto tr417
 	st404:
 		if p++; p == pe {
 			goto _test_eof404
@@ -12196,7 +12215,7 @@ addrp=lastAddr(&msg.To)
 		case 115:
 			goto st405
 		}
-		goto tr416
+		goto tr417
 	st405:
 		if p++; p == pe {
 			goto _test_eof405
@@ -12208,7 +12227,7 @@ addrp=lastAddr(&msg.To)
 		case 112:
 			goto st406
 		}
-		goto tr416
+		goto tr417
 	st406:
 		if p++; p == pe {
 			goto _test_eof406
@@ -12220,7 +12239,7 @@ addrp=lastAddr(&msg.To)
 		case 111:
 			goto st407
 		}
-		goto tr416
+		goto tr417
 	st407:
 		if p++; p == pe {
 			goto _test_eof407
@@ -12232,7 +12251,7 @@ addrp=lastAddr(&msg.To)
 		case 115:
 			goto st408
 		}
-		goto tr416
+		goto tr417
 	st408:
 		if p++; p == pe {
 			goto _test_eof408
@@ -12244,7 +12263,7 @@ addrp=lastAddr(&msg.To)
 		case 105:
 			goto st409
 		}
-		goto tr416
+		goto tr417
 	st409:
 		if p++; p == pe {
 			goto _test_eof409
@@ -12256,7 +12275,7 @@ addrp=lastAddr(&msg.To)
 		case 116:
 			goto st410
 		}
-		goto tr416
+		goto tr417
 	st410:
 		if p++; p == pe {
 			goto _test_eof410
@@ -12268,7 +12287,7 @@ addrp=lastAddr(&msg.To)
 		case 105:
 			goto st411
 		}
-		goto tr416
+		goto tr417
 	st411:
 		if p++; p == pe {
 			goto _test_eof411
@@ -12280,7 +12299,7 @@ addrp=lastAddr(&msg.To)
 		case 111:
 			goto st412
 		}
-		goto tr416
+		goto tr417
 	st412:
 		if p++; p == pe {
 			goto _test_eof412
@@ -12292,7 +12311,7 @@ addrp=lastAddr(&msg.To)
 		case 110:
 			goto st413
 		}
-		goto tr416
+		goto tr417
 	st413:
 		if p++; p == pe {
 			goto _test_eof413
@@ -12300,13 +12319,13 @@ addrp=lastAddr(&msg.To)
 	st_case_413:
 		switch data[p] {
 		case 9:
-			goto tr597
+			goto tr598
 		case 32:
-			goto tr597
-		case 58:
 			goto tr598
+		case 58:
+			goto tr599
 		}
-		goto tr416
+		goto tr417
 	st414:
 		if p++; p == pe {
 			goto _test_eof414
@@ -12318,7 +12337,7 @@ addrp=lastAddr(&msg.To)
 		case 110:
 			goto st415
 		}
-		goto tr416
+		goto tr417
 	st415:
 		if p++; p == pe {
 			goto _test_eof415
@@ -12330,7 +12349,7 @@ addrp=lastAddr(&msg.To)
 		case 99:
 			goto st416
 		}
-		goto tr416
+		goto tr417
 	st416:
 		if p++; p == pe {
 			goto _test_eof416
@@ -12342,7 +12361,7 @@ addrp=lastAddr(&msg.To)
 		case 111:
 			goto st417
 		}
-		goto tr416
+		goto tr417
 	st417:
 		if p++; p == pe {
 			goto _test_eof417
@@ -12354,7 +12373,7 @@ addrp=lastAddr(&msg.To)
 		case 100:
 			goto st418
 		}
-		goto tr416
+		goto tr417
 	st418:
 		if p++; p == pe {
 			goto _test_eof418
@@ -12366,7 +12385,7 @@ addrp=lastAddr(&msg.To)
 		case 105:
 			goto st419
 		}
-		goto tr416
+		goto tr417
 	st419:
 		if p++; p == pe {
 			goto _test_eof419
@@ -12378,7 +12397,7 @@ addrp=lastAddr(&msg.To)
 		case 110:
 			goto st420
 		}
-		goto tr416
+		goto tr417
 	st420:
 		if p++; p == pe {
 			goto _test_eof420
@@ -12390,7 +12409,7 @@ addrp=lastAddr(&msg.To)
 		case 103:
 			goto st421
 		}
-		goto tr416
+		goto tr417
 	st421:
 		if p++; p == pe {
 			goto _test_eof421
@@ -12398,13 +12417,13 @@ addrp=lastAddr(&msg.To)
 	st_case_421:
 		switch data[p] {
 		case 9:
-			goto tr606
+			goto tr607
 		case 32:
-			goto tr606
-		case 58:
 			goto tr607
+		case 58:
+			goto tr608
 		}
-		goto tr416
+		goto tr417
 	st422:
 		if p++; p == pe {
 			goto _test_eof422
@@ -12420,7 +12439,7 @@ addrp=lastAddr(&msg.To)
 		case 101:
 			goto st430
 		}
-		goto tr416
+		goto tr417
 	st423:
 		if p++; p == pe {
 			goto _test_eof423
@@ -12432,7 +12451,7 @@ addrp=lastAddr(&msg.To)
 		case 110:
 			goto st424
 		}
-		goto tr416
+		goto tr417
 	st424:
 		if p++; p == pe {
 			goto _test_eof424
@@ -12444,7 +12463,7 @@ addrp=lastAddr(&msg.To)
 		case 103:
 			goto st425
 		}
-		goto tr416
+		goto tr417
 	st425:
 		if p++; p == pe {
 			goto _test_eof425
@@ -12456,7 +12475,7 @@ addrp=lastAddr(&msg.To)
 		case 117:
 			goto st426
 		}
-		goto tr416
+		goto tr417
 	st426:
 		if p++; p == pe {
 			goto _test_eof426
@@ -12468,7 +12487,7 @@ addrp=lastAddr(&msg.To)
 		case 97:
 			goto st427
 		}
-		goto tr416
+		goto tr417
 	st427:
 		if p++; p == pe {
 			goto _test_eof427
@@ -12480,7 +12499,7 @@ addrp=lastAddr(&msg.To)
 		case 103:
 			goto st428
 		}
-		goto tr416
+		goto tr417
 	st428:
 		if p++; p == pe {
 			goto _test_eof428
@@ -12492,7 +12511,7 @@ addrp=lastAddr(&msg.To)
 		case 101:
 			goto st429
 		}
-		goto tr416
+		goto tr417
 	st429:
 		if p++; p == pe {
 			goto _test_eof429
@@ -12500,13 +12519,13 @@ addrp=lastAddr(&msg.To)
 	st_case_429:
 		switch data[p] {
 		case 9:
-			goto tr616
+			goto tr617
 		case 32:
-			goto tr616
-		case 58:
 			goto tr617
+		case 58:
+			goto tr618
 		}
-		goto tr416
+		goto tr417
 	st430:
 		if p++; p == pe {
 			goto _test_eof430
@@ -12518,7 +12537,7 @@ addrp=lastAddr(&msg.To)
 		case 110:
 			goto st431
 		}
-		goto tr416
+		goto tr417
 	st431:
 		if p++; p == pe {
 			goto _test_eof431
@@ -12530,7 +12549,7 @@ addrp=lastAddr(&msg.To)
 		case 103:
 			goto st432
 		}
-		goto tr416
+		goto tr417
 	st432:
 		if p++; p == pe {
 			goto _test_eof432
@@ -12542,7 +12561,7 @@ addrp=lastAddr(&msg.To)
 		case 116:
 			goto st433
 		}
-		goto tr416
+		goto tr417
 	st433:
 		if p++; p == pe {
 			goto _test_eof433
@@ -12554,7 +12573,7 @@ addrp=lastAddr(&msg.To)
 		case 104:
 			goto st434
 		}
-		goto tr416
+		goto tr417
 	st434:
 		if p++; p == pe {
 			goto _test_eof434
@@ -12568,7 +12587,7 @@ addrp=lastAddr(&msg.To)
 		case 58:
 			goto st436
 		}
-		goto tr416
+		goto tr417
 	st435:
 		if p++; p == pe {
 			goto _test_eof435
@@ -12604,10 +12623,10 @@ addrp=lastAddr(&msg.To)
 			goto st438
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr624
+			goto tr625
 		}
 		goto st0
-tr624:
+tr625:
 //line sip.rl:493
 clen=0
 //line sip.rl:224
@@ -12615,7 +12634,7 @@ clen=0
 	clen = clen * 10 + (int(data[p]) - 0x30)
 
 	goto st437
-tr626:
+tr627:
 //line sip.rl:224
 
 	clen = clen * 10 + (int(data[p]) - 0x30)
@@ -12626,7 +12645,7 @@ tr626:
 			goto _test_eof437
 		}
 	st_case_437:
-//line msg_parse.go:12621
+//line msg_parse.go:12640
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12638,7 +12657,7 @@ tr626:
 			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr626
+			goto tr627
 		}
 		goto st0
 	st438:
@@ -12674,7 +12693,7 @@ tr626:
 			goto st440
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr624
+			goto tr625
 		}
 		goto st0
 	st441:
@@ -12688,7 +12707,7 @@ tr626:
 		case 121:
 			goto st442
 		}
-		goto tr416
+		goto tr417
 	st442:
 		if p++; p == pe {
 			goto _test_eof442
@@ -12700,7 +12719,7 @@ tr626:
 		case 112:
 			goto st443
 		}
-		goto tr416
+		goto tr417
 	st443:
 		if p++; p == pe {
 			goto _test_eof443
@@ -12712,7 +12731,7 @@ tr626:
 		case 101:
 			goto st444
 		}
-		goto tr416
+		goto tr417
 	st444:
 		if p++; p == pe {
 			goto _test_eof444
@@ -12726,7 +12745,7 @@ tr626:
 		case 58:
 			goto st366
 		}
-		goto tr416
+		goto tr417
 	st445:
 		if p++; p == pe {
 			goto _test_eof445
@@ -12738,7 +12757,7 @@ tr626:
 		case 101:
 			goto st446
 		}
-		goto tr416
+		goto tr417
 	st446:
 		if p++; p == pe {
 			goto _test_eof446
@@ -12750,7 +12769,7 @@ tr626:
 		case 113:
 			goto st447
 		}
-		goto tr416
+		goto tr417
 	st447:
 		if p++; p == pe {
 			goto _test_eof447
@@ -12764,7 +12783,7 @@ tr626:
 		case 58:
 			goto st449
 		}
-		goto tr416
+		goto tr417
 	st448:
 		if p++; p == pe {
 			goto _test_eof448
@@ -12800,10 +12819,10 @@ tr626:
 			goto st456
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr637
+			goto tr638
 		}
 		goto st0
-tr637:
+tr638:
 //line sip.rl:232
 
 	msg.CSeq = msg.CSeq * 10 + (int(data[p]) - 0x30)
@@ -12814,7 +12833,7 @@ tr637:
 			goto _test_eof450
 		}
 	st_case_450:
-//line msg_parse.go:12809
+//line msg_parse.go:12828
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12831,7 +12850,7 @@ tr637:
 			goto st453
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr637
+			goto tr638
 		}
 		goto st0
 	st451:
@@ -12852,13 +12871,13 @@ tr637:
 		case 32:
 			goto st451
 		case 33:
-			goto tr641
+			goto tr642
 		case 37:
-			goto tr641
+			goto tr642
 		case 39:
-			goto tr641
+			goto tr642
 		case 126:
-			goto tr641
+			goto tr642
 		case 525:
 			goto st453
 		}
@@ -12867,25 +12886,25 @@ tr637:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto tr641
+					goto tr642
 				}
 			case _widec >= 42:
-				goto tr641
+				goto tr642
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr641
+					goto tr642
 				}
 			case _widec >= 65:
-				goto tr641
+				goto tr642
 			}
 		default:
-			goto tr641
+			goto tr642
 		}
 		goto st0
-tr641:
+tr642:
 //line sip.rl:80
 
 	mark = p
@@ -12896,7 +12915,7 @@ tr641:
 			goto _test_eof452
 		}
 	st_case_452:
-//line msg_parse.go:12891
+//line msg_parse.go:12910
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12914,7 +12933,7 @@ tr641:
 		case 126:
 			goto st452
 		case 269:
-			goto tr643
+			goto tr644
 		}
 		switch {
 		case _widec < 48:
@@ -12971,35 +12990,35 @@ tr641:
 		case 32:
 			goto st455
 		case 33:
-			goto tr641
+			goto tr642
 		case 37:
-			goto tr641
+			goto tr642
 		case 39:
-			goto tr641
+			goto tr642
 		case 126:
-			goto tr641
+			goto tr642
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr641
+					goto tr642
 				}
 			case data[p] >= 42:
-				goto tr641
+				goto tr642
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr641
+					goto tr642
 				}
 			case data[p] >= 65:
-				goto tr641
+				goto tr642
 			}
 		default:
-			goto tr641
+			goto tr642
 		}
 		goto st0
 	st456:
@@ -13035,7 +13054,7 @@ tr641:
 			goto st458
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr637
+			goto tr638
 		}
 		goto st0
 	st459:
@@ -13049,7 +13068,7 @@ tr641:
 		case 97:
 			goto st460
 		}
-		goto tr416
+		goto tr417
 	st460:
 		if p++; p == pe {
 			goto _test_eof460
@@ -13061,7 +13080,7 @@ tr641:
 		case 116:
 			goto st461
 		}
-		goto tr416
+		goto tr417
 	st461:
 		if p++; p == pe {
 			goto _test_eof461
@@ -13073,7 +13092,7 @@ tr641:
 		case 101:
 			goto st462
 		}
-		goto tr416
+		goto tr417
 	st462:
 		if p++; p == pe {
 			goto _test_eof462
@@ -13081,13 +13100,13 @@ tr641:
 	st_case_462:
 		switch data[p] {
 		case 9:
-			goto tr651
+			goto tr652
 		case 32:
-			goto tr651
-		case 58:
 			goto tr652
+		case 58:
+			goto tr653
 		}
-		goto tr416
+		goto tr417
 	st463:
 		if p++; p == pe {
 			goto _test_eof463
@@ -13095,11 +13114,11 @@ tr641:
 	st_case_463:
 		switch data[p] {
 		case 9:
-			goto tr606
+			goto tr607
 		case 32:
-			goto tr606
-		case 58:
 			goto tr607
+		case 58:
+			goto tr608
 		case 82:
 			goto st464
 		case 86:
@@ -13113,7 +13132,7 @@ tr641:
 		case 120:
 			goto st477
 		}
-		goto tr416
+		goto tr417
 	st464:
 		if p++; p == pe {
 			goto _test_eof464
@@ -13125,7 +13144,7 @@ tr641:
 		case 114:
 			goto st465
 		}
-		goto tr416
+		goto tr417
 	st465:
 		if p++; p == pe {
 			goto _test_eof465
@@ -13137,7 +13156,7 @@ tr641:
 		case 111:
 			goto st466
 		}
-		goto tr416
+		goto tr417
 	st466:
 		if p++; p == pe {
 			goto _test_eof466
@@ -13149,7 +13168,7 @@ tr641:
 		case 114:
 			goto st467
 		}
-		goto tr416
+		goto tr417
 	st467:
 		if p++; p == pe {
 			goto _test_eof467
@@ -13158,7 +13177,7 @@ tr641:
 		if data[p] == 45 {
 			goto st468
 		}
-		goto tr416
+		goto tr417
 	st468:
 		if p++; p == pe {
 			goto _test_eof468
@@ -13170,7 +13189,7 @@ tr641:
 		case 105:
 			goto st469
 		}
-		goto tr416
+		goto tr417
 	st469:
 		if p++; p == pe {
 			goto _test_eof469
@@ -13182,7 +13201,7 @@ tr641:
 		case 110:
 			goto st470
 		}
-		goto tr416
+		goto tr417
 	st470:
 		if p++; p == pe {
 			goto _test_eof470
@@ -13194,7 +13213,7 @@ tr641:
 		case 102:
 			goto st471
 		}
-		goto tr416
+		goto tr417
 	st471:
 		if p++; p == pe {
 			goto _test_eof471
@@ -13206,7 +13225,7 @@ tr641:
 		case 111:
 			goto st472
 		}
-		goto tr416
+		goto tr417
 	st472:
 		if p++; p == pe {
 			goto _test_eof472
@@ -13214,13 +13233,13 @@ tr641:
 	st_case_472:
 		switch data[p] {
 		case 9:
-			goto tr664
+			goto tr665
 		case 32:
-			goto tr664
-		case 58:
 			goto tr665
+		case 58:
+			goto tr666
 		}
-		goto tr416
+		goto tr417
 	st473:
 		if p++; p == pe {
 			goto _test_eof473
@@ -13232,7 +13251,7 @@ tr641:
 		case 101:
 			goto st474
 		}
-		goto tr416
+		goto tr417
 	st474:
 		if p++; p == pe {
 			goto _test_eof474
@@ -13244,7 +13263,7 @@ tr641:
 		case 110:
 			goto st475
 		}
-		goto tr416
+		goto tr417
 	st475:
 		if p++; p == pe {
 			goto _test_eof475
@@ -13256,7 +13275,7 @@ tr641:
 		case 116:
 			goto st476
 		}
-		goto tr416
+		goto tr417
 	st476:
 		if p++; p == pe {
 			goto _test_eof476
@@ -13264,13 +13283,13 @@ tr641:
 	st_case_476:
 		switch data[p] {
 		case 9:
-			goto tr669
+			goto tr670
 		case 32:
-			goto tr669
-		case 58:
 			goto tr670
+		case 58:
+			goto tr671
 		}
-		goto tr416
+		goto tr417
 	st477:
 		if p++; p == pe {
 			goto _test_eof477
@@ -13282,7 +13301,7 @@ tr641:
 		case 112:
 			goto st478
 		}
-		goto tr416
+		goto tr417
 	st478:
 		if p++; p == pe {
 			goto _test_eof478
@@ -13294,7 +13313,7 @@ tr641:
 		case 105:
 			goto st479
 		}
-		goto tr416
+		goto tr417
 	st479:
 		if p++; p == pe {
 			goto _test_eof479
@@ -13306,7 +13325,7 @@ tr641:
 		case 114:
 			goto st480
 		}
-		goto tr416
+		goto tr417
 	st480:
 		if p++; p == pe {
 			goto _test_eof480
@@ -13318,7 +13337,7 @@ tr641:
 		case 101:
 			goto st481
 		}
-		goto tr416
+		goto tr417
 	st481:
 		if p++; p == pe {
 			goto _test_eof481
@@ -13330,7 +13349,7 @@ tr641:
 		case 115:
 			goto st482
 		}
-		goto tr416
+		goto tr417
 	st482:
 		if p++; p == pe {
 			goto _test_eof482
@@ -13344,7 +13363,7 @@ tr641:
 		case 58:
 			goto st484
 		}
-		goto tr416
+		goto tr417
 	st483:
 		if p++; p == pe {
 			goto _test_eof483
@@ -13380,10 +13399,10 @@ tr641:
 			goto st486
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr678
+			goto tr679
 		}
 		goto st0
-tr678:
+tr679:
 //line sip.rl:495
 msg.Expires=0
 //line sip.rl:240
@@ -13391,7 +13410,7 @@ msg.Expires=0
 	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
 
 	goto st485
-tr680:
+tr681:
 //line sip.rl:240
 
 	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
@@ -13402,7 +13421,7 @@ tr680:
 			goto _test_eof485
 		}
 	st_case_485:
-//line msg_parse.go:13397
+//line msg_parse.go:13416
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13414,7 +13433,7 @@ tr680:
 			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr680
+			goto tr681
 		}
 		goto st0
 	st486:
@@ -13450,7 +13469,7 @@ tr680:
 			goto st488
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr678
+			goto tr679
 		}
 		goto st0
 	st489:
@@ -13460,17 +13479,17 @@ tr680:
 	st_case_489:
 		switch data[p] {
 		case 9:
-			goto tr683
+			goto tr684
 		case 32:
-			goto tr683
-		case 58:
 			goto tr684
+		case 58:
+			goto tr685
 		case 82:
 			goto st490
 		case 114:
 			goto st490
 		}
-		goto tr416
+		goto tr417
 	st490:
 		if p++; p == pe {
 			goto _test_eof490
@@ -13482,7 +13501,7 @@ tr680:
 		case 111:
 			goto st491
 		}
-		goto tr416
+		goto tr417
 	st491:
 		if p++; p == pe {
 			goto _test_eof491
@@ -13494,7 +13513,7 @@ tr680:
 		case 109:
 			goto st492
 		}
-		goto tr416
+		goto tr417
 	st492:
 		if p++; p == pe {
 			goto _test_eof492
@@ -13502,13 +13521,13 @@ tr680:
 	st_case_492:
 		switch data[p] {
 		case 9:
-			goto tr683
+			goto tr684
 		case 32:
-			goto tr683
-		case 58:
 			goto tr684
+		case 58:
+			goto tr685
 		}
-		goto tr416
+		goto tr417
 	st493:
 		if p++; p == pe {
 			goto _test_eof493
@@ -13526,7 +13545,7 @@ tr680:
 		case 110:
 			goto st494
 		}
-		goto tr416
+		goto tr417
 	st494:
 		if p++; p == pe {
 			goto _test_eof494
@@ -13535,7 +13554,7 @@ tr680:
 		if data[p] == 45 {
 			goto st495
 		}
-		goto tr416
+		goto tr417
 	st495:
 		if p++; p == pe {
 			goto _test_eof495
@@ -13547,7 +13566,7 @@ tr680:
 		case 114:
 			goto st496
 		}
-		goto tr416
+		goto tr417
 	st496:
 		if p++; p == pe {
 			goto _test_eof496
@@ -13559,7 +13578,7 @@ tr680:
 		case 101:
 			goto st497
 		}
-		goto tr416
+		goto tr417
 	st497:
 		if p++; p == pe {
 			goto _test_eof497
@@ -13571,7 +13590,7 @@ tr680:
 		case 112:
 			goto st498
 		}
-		goto tr416
+		goto tr417
 	st498:
 		if p++; p == pe {
 			goto _test_eof498
@@ -13583,7 +13602,7 @@ tr680:
 		case 108:
 			goto st499
 		}
-		goto tr416
+		goto tr417
 	st499:
 		if p++; p == pe {
 			goto _test_eof499
@@ -13595,7 +13614,7 @@ tr680:
 		case 121:
 			goto st500
 		}
-		goto tr416
+		goto tr417
 	st500:
 		if p++; p == pe {
 			goto _test_eof500
@@ -13604,7 +13623,7 @@ tr680:
 		if data[p] == 45 {
 			goto st501
 		}
-		goto tr416
+		goto tr417
 	st501:
 		if p++; p == pe {
 			goto _test_eof501
@@ -13616,7 +13635,7 @@ tr680:
 		case 116:
 			goto st502
 		}
-		goto tr416
+		goto tr417
 	st502:
 		if p++; p == pe {
 			goto _test_eof502
@@ -13628,7 +13647,7 @@ tr680:
 		case 111:
 			goto st503
 		}
-		goto tr416
+		goto tr417
 	st503:
 		if p++; p == pe {
 			goto _test_eof503
@@ -13636,13 +13655,13 @@ tr680:
 	st_case_503:
 		switch data[p] {
 		case 9:
-			goto tr698
+			goto tr699
 		case 32:
-			goto tr698
-		case 58:
 			goto tr699
+		case 58:
+			goto tr700
 		}
-		goto tr416
+		goto tr417
 	st504:
 		if p++; p == pe {
 			goto _test_eof504
@@ -13650,13 +13669,13 @@ tr680:
 	st_case_504:
 		switch data[p] {
 		case 9:
-			goto tr700
+			goto tr701
 		case 32:
-			goto tr700
-		case 58:
 			goto tr701
+		case 58:
+			goto tr702
 		}
-		goto tr416
+		goto tr417
 	st505:
 		if p++; p == pe {
 			goto _test_eof505
@@ -13670,7 +13689,7 @@ tr680:
 		case 58:
 			goto st507
 		}
-		goto tr416
+		goto tr417
 	st506:
 		if p++; p == pe {
 			goto _test_eof506
@@ -13706,10 +13725,10 @@ tr680:
 			goto st509
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr704
+			goto tr705
 		}
 		goto st0
-tr704:
+tr705:
 //line sip.rl:493
 clen=0
 //line sip.rl:224
@@ -13735,7 +13754,7 @@ msg.MinExpires=0
 	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
 
 	goto st508
-tr706:
+tr707:
 //line sip.rl:224
 
 	clen = clen * 10 + (int(data[p]) - 0x30)
@@ -13758,7 +13777,7 @@ tr706:
 			goto _test_eof508
 		}
 	st_case_508:
-//line msg_parse.go:13753
+//line msg_parse.go:13772
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13770,7 +13789,7 @@ tr706:
 			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr706
+			goto tr707
 		}
 		goto st0
 	st509:
@@ -13806,7 +13825,7 @@ tr706:
 			goto st511
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr704
+			goto tr705
 		}
 		goto st0
 	st512:
@@ -13816,11 +13835,11 @@ tr706:
 	st_case_512:
 		switch data[p] {
 		case 9:
-			goto tr572
+			goto tr573
 		case 32:
-			goto tr572
-		case 58:
 			goto tr573
+		case 58:
+			goto tr574
 		case 65:
 			goto st513
 		case 73:
@@ -13830,7 +13849,7 @@ tr706:
 		case 105:
 			goto st530
 		}
-		goto tr416
+		goto tr417
 	st513:
 		if p++; p == pe {
 			goto _test_eof513
@@ -13842,7 +13861,7 @@ tr706:
 		case 120:
 			goto st514
 		}
-		goto tr416
+		goto tr417
 	st514:
 		if p++; p == pe {
 			goto _test_eof514
@@ -13851,7 +13870,7 @@ tr706:
 		if data[p] == 45 {
 			goto st515
 		}
-		goto tr416
+		goto tr417
 	st515:
 		if p++; p == pe {
 			goto _test_eof515
@@ -13863,7 +13882,7 @@ tr706:
 		case 102:
 			goto st516
 		}
-		goto tr416
+		goto tr417
 	st516:
 		if p++; p == pe {
 			goto _test_eof516
@@ -13875,7 +13894,7 @@ tr706:
 		case 111:
 			goto st517
 		}
-		goto tr416
+		goto tr417
 	st517:
 		if p++; p == pe {
 			goto _test_eof517
@@ -13887,7 +13906,7 @@ tr706:
 		case 114:
 			goto st518
 		}
-		goto tr416
+		goto tr417
 	st518:
 		if p++; p == pe {
 			goto _test_eof518
@@ -13899,7 +13918,7 @@ tr706:
 		case 119:
 			goto st519
 		}
-		goto tr416
+		goto tr417
 	st519:
 		if p++; p == pe {
 			goto _test_eof519
@@ -13911,7 +13930,7 @@ tr706:
 		case 97:
 			goto st520
 		}
-		goto tr416
+		goto tr417
 	st520:
 		if p++; p == pe {
 			goto _test_eof520
@@ -13923,7 +13942,7 @@ tr706:
 		case 114:
 			goto st521
 		}
-		goto tr416
+		goto tr417
 	st521:
 		if p++; p == pe {
 			goto _test_eof521
@@ -13935,7 +13954,7 @@ tr706:
 		case 100:
 			goto st522
 		}
-		goto tr416
+		goto tr417
 	st522:
 		if p++; p == pe {
 			goto _test_eof522
@@ -13947,7 +13966,7 @@ tr706:
 		case 115:
 			goto st523
 		}
-		goto tr416
+		goto tr417
 	st523:
 		if p++; p == pe {
 			goto _test_eof523
@@ -13961,7 +13980,7 @@ tr706:
 		case 58:
 			goto st525
 		}
-		goto tr416
+		goto tr417
 	st524:
 		if p++; p == pe {
 			goto _test_eof524
@@ -13997,10 +14016,10 @@ tr706:
 			goto st527
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr723
+			goto tr724
 		}
 		goto st0
-tr723:
+tr724:
 //line sip.rl:496
 msg.MaxForwards=0
 //line sip.rl:244
@@ -14008,7 +14027,7 @@ msg.MaxForwards=0
 	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
 
 	goto st526
-tr725:
+tr726:
 //line sip.rl:244
 
 	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
@@ -14019,7 +14038,7 @@ tr725:
 			goto _test_eof526
 		}
 	st_case_526:
-//line msg_parse.go:14014
+//line msg_parse.go:14033
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -14031,7 +14050,7 @@ tr725:
 			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr725
+			goto tr726
 		}
 		goto st0
 	st527:
@@ -14067,7 +14086,7 @@ tr725:
 			goto st529
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr723
+			goto tr724
 		}
 		goto st0
 	st530:
@@ -14085,7 +14104,7 @@ tr725:
 		case 110:
 			goto st541
 		}
-		goto tr416
+		goto tr417
 	st531:
 		if p++; p == pe {
 			goto _test_eof531
@@ -14097,7 +14116,7 @@ tr725:
 		case 101:
 			goto st532
 		}
-		goto tr416
+		goto tr417
 	st532:
 		if p++; p == pe {
 			goto _test_eof532
@@ -14106,7 +14125,7 @@ tr725:
 		if data[p] == 45 {
 			goto st533
 		}
-		goto tr416
+		goto tr417
 	st533:
 		if p++; p == pe {
 			goto _test_eof533
@@ -14118,7 +14137,7 @@ tr725:
 		case 118:
 			goto st534
 		}
-		goto tr416
+		goto tr417
 	st534:
 		if p++; p == pe {
 			goto _test_eof534
@@ -14130,7 +14149,7 @@ tr725:
 		case 101:
 			goto st535
 		}
-		goto tr416
+		goto tr417
 	st535:
 		if p++; p == pe {
 			goto _test_eof535
@@ -14142,7 +14161,7 @@ tr725:
 		case 114:
 			goto st536
 		}
-		goto tr416
+		goto tr417
 	st536:
 		if p++; p == pe {
 			goto _test_eof536
@@ -14154,7 +14173,7 @@ tr725:
 		case 115:
 			goto st537
 		}
-		goto tr416
+		goto tr417
 	st537:
 		if p++; p == pe {
 			goto _test_eof537
@@ -14166,7 +14185,7 @@ tr725:
 		case 105:
 			goto st538
 		}
-		goto tr416
+		goto tr417
 	st538:
 		if p++; p == pe {
 			goto _test_eof538
@@ -14178,7 +14197,7 @@ tr725:
 		case 111:
 			goto st539
 		}
-		goto tr416
+		goto tr417
 	st539:
 		if p++; p == pe {
 			goto _test_eof539
@@ -14190,7 +14209,7 @@ tr725:
 		case 110:
 			goto st540
 		}
-		goto tr416
+		goto tr417
 	st540:
 		if p++; p == pe {
 			goto _test_eof540
@@ -14198,13 +14217,13 @@ tr725:
 	st_case_540:
 		switch data[p] {
 		case 9:
-			goto tr739
+			goto tr740
 		case 32:
-			goto tr739
-		case 58:
 			goto tr740
+		case 58:
+			goto tr741
 		}
-		goto tr416
+		goto tr417
 	st541:
 		if p++; p == pe {
 			goto _test_eof541
@@ -14213,7 +14232,7 @@ tr725:
 		if data[p] == 45 {
 			goto st542
 		}
-		goto tr416
+		goto tr417
 	st542:
 		if p++; p == pe {
 			goto _test_eof542
@@ -14225,7 +14244,7 @@ tr725:
 		case 101:
 			goto st543
 		}
-		goto tr416
+		goto tr417
 	st543:
 		if p++; p == pe {
 			goto _test_eof543
@@ -14237,7 +14256,7 @@ tr725:
 		case 120:
 			goto st544
 		}
-		goto tr416
+		goto tr417
 	st544:
 		if p++; p == pe {
 			goto _test_eof544
@@ -14249,7 +14268,7 @@ tr725:
 		case 112:
 			goto st545
 		}
-		goto tr416
+		goto tr417
 	st545:
 		if p++; p == pe {
 			goto _test_eof545
@@ -14261,7 +14280,7 @@ tr725:
 		case 105:
 			goto st546
 		}
-		goto tr416
+		goto tr417
 	st546:
 		if p++; p == pe {
 			goto _test_eof546
@@ -14273,7 +14292,7 @@ tr725:
 		case 114:
 			goto st547
 		}
-		goto tr416
+		goto tr417
 	st547:
 		if p++; p == pe {
 			goto _test_eof547
@@ -14285,7 +14304,7 @@ tr725:
 		case 101:
 			goto st548
 		}
-		goto tr416
+		goto tr417
 	st548:
 		if p++; p == pe {
 			goto _test_eof548
@@ -14297,7 +14316,7 @@ tr725:
 		case 115:
 			goto st549
 		}
-		goto tr416
+		goto tr417
 	st549:
 		if p++; p == pe {
 			goto _test_eof549
@@ -14311,7 +14330,7 @@ tr725:
 		case 58:
 			goto st551
 		}
-		goto tr416
+		goto tr417
 	st550:
 		if p++; p == pe {
 			goto _test_eof550
@@ -14347,10 +14366,10 @@ tr725:
 			goto st553
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr751
+			goto tr752
 		}
 		goto st0
-tr751:
+tr752:
 //line sip.rl:497
 msg.MinExpires=0
 //line sip.rl:248
@@ -14358,7 +14377,7 @@ msg.MinExpires=0
 	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
 
 	goto st552
-tr753:
+tr754:
 //line sip.rl:248
 
 	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
@@ -14369,7 +14388,7 @@ tr753:
 			goto _test_eof552
 		}
 	st_case_552:
-//line msg_parse.go:14364
+//line msg_parse.go:14383
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -14381,7 +14400,7 @@ tr753:
 			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr753
+			goto tr754
 		}
 		goto st0
 	st553:
@@ -14417,7 +14436,7 @@ tr753:
 			goto st555
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr751
+			goto tr752
 		}
 		goto st0
 	st556:
@@ -14427,17 +14446,17 @@ tr753:
 	st_case_556:
 		switch data[p] {
 		case 9:
-			goto tr669
+			goto tr670
 		case 32:
-			goto tr669
-		case 58:
 			goto tr670
+		case 58:
+			goto tr671
 		case 82:
 			goto st557
 		case 114:
 			goto st557
 		}
-		goto tr416
+		goto tr417
 	st557:
 		if p++; p == pe {
 			goto _test_eof557
@@ -14449,7 +14468,7 @@ tr753:
 		case 103:
 			goto st558
 		}
-		goto tr416
+		goto tr417
 	st558:
 		if p++; p == pe {
 			goto _test_eof558
@@ -14461,7 +14480,7 @@ tr753:
 		case 97:
 			goto st559
 		}
-		goto tr416
+		goto tr417
 	st559:
 		if p++; p == pe {
 			goto _test_eof559
@@ -14473,7 +14492,7 @@ tr753:
 		case 110:
 			goto st560
 		}
-		goto tr416
+		goto tr417
 	st560:
 		if p++; p == pe {
 			goto _test_eof560
@@ -14485,7 +14504,7 @@ tr753:
 		case 105:
 			goto st561
 		}
-		goto tr416
+		goto tr417
 	st561:
 		if p++; p == pe {
 			goto _test_eof561
@@ -14497,7 +14516,7 @@ tr753:
 		case 122:
 			goto st562
 		}
-		goto tr416
+		goto tr417
 	st562:
 		if p++; p == pe {
 			goto _test_eof562
@@ -14509,7 +14528,7 @@ tr753:
 		case 97:
 			goto st563
 		}
-		goto tr416
+		goto tr417
 	st563:
 		if p++; p == pe {
 			goto _test_eof563
@@ -14521,7 +14540,7 @@ tr753:
 		case 116:
 			goto st564
 		}
-		goto tr416
+		goto tr417
 	st564:
 		if p++; p == pe {
 			goto _test_eof564
@@ -14533,7 +14552,7 @@ tr753:
 		case 105:
 			goto st565
 		}
-		goto tr416
+		goto tr417
 	st565:
 		if p++; p == pe {
 			goto _test_eof565
@@ -14545,7 +14564,7 @@ tr753:
 		case 111:
 			goto st566
 		}
-		goto tr416
+		goto tr417
 	st566:
 		if p++; p == pe {
 			goto _test_eof566
@@ -14557,7 +14576,7 @@ tr753:
 		case 110:
 			goto st567
 		}
-		goto tr416
+		goto tr417
 	st567:
 		if p++; p == pe {
 			goto _test_eof567
@@ -14565,13 +14584,13 @@ tr753:
 	st_case_567:
 		switch data[p] {
 		case 9:
-			goto tr767
+			goto tr768
 		case 32:
-			goto tr767
-		case 58:
 			goto tr768
+		case 58:
+			goto tr769
 		}
-		goto tr416
+		goto tr417
 	st568:
 		if p++; p == pe {
 			goto _test_eof568
@@ -14585,7 +14604,7 @@ tr753:
 		case 114:
 			goto st587
 		}
-		goto tr416
+		goto tr417
 	st569:
 		if p++; p == pe {
 			goto _test_eof569
@@ -14597,7 +14616,7 @@ tr753:
 		case 97:
 			goto st570
 		}
-		goto tr416
+		goto tr417
 	st570:
 		if p++; p == pe {
 			goto _test_eof570
@@ -14609,7 +14628,7 @@ tr753:
 		case 115:
 			goto st571
 		}
-		goto tr416
+		goto tr417
 	st571:
 		if p++; p == pe {
 			goto _test_eof571
@@ -14621,7 +14640,7 @@ tr753:
 		case 115:
 			goto st572
 		}
-		goto tr416
+		goto tr417
 	st572:
 		if p++; p == pe {
 			goto _test_eof572
@@ -14633,7 +14652,7 @@ tr753:
 		case 101:
 			goto st573
 		}
-		goto tr416
+		goto tr417
 	st573:
 		if p++; p == pe {
 			goto _test_eof573
@@ -14645,7 +14664,7 @@ tr753:
 		case 114:
 			goto st574
 		}
-		goto tr416
+		goto tr417
 	st574:
 		if p++; p == pe {
 			goto _test_eof574
@@ -14657,7 +14676,7 @@ tr753:
 		case 116:
 			goto st575
 		}
-		goto tr416
+		goto tr417
 	st575:
 		if p++; p == pe {
 			goto _test_eof575
@@ -14669,7 +14688,7 @@ tr753:
 		case 101:
 			goto st576
 		}
-		goto tr416
+		goto tr417
 	st576:
 		if p++; p == pe {
 			goto _test_eof576
@@ -14681,7 +14700,7 @@ tr753:
 		case 100:
 			goto st577
 		}
-		goto tr416
+		goto tr417
 	st577:
 		if p++; p == pe {
 			goto _test_eof577
@@ -14690,7 +14709,7 @@ tr753:
 		if data[p] == 45 {
 			goto st578
 		}
-		goto tr416
+		goto tr417
 	st578:
 		if p++; p == pe {
 			goto _test_eof578
@@ -14702,7 +14721,7 @@ tr753:
 		case 105:
 			goto st579
 		}
-		goto tr416
+		goto tr417
 	st579:
 		if p++; p == pe {
 			goto _test_eof579
@@ -14714,7 +14733,7 @@ tr753:
 		case 100:
 			goto st580
 		}
-		goto tr416
+		goto tr417
 	st580:
 		if p++; p == pe {
 			goto _test_eof580
@@ -14726,7 +14745,7 @@ tr753:
 		case 101:
 			goto st581
 		}
-		goto tr416
+		goto tr417
 	st581:
 		if p++; p == pe {
 			goto _test_eof581
@@ -14738,7 +14757,7 @@ tr753:
 		case 110:
 			goto st582
 		}
-		goto tr416
+		goto tr417
 	st582:
 		if p++; p == pe {
 			goto _test_eof582
@@ -14750,7 +14769,7 @@ tr753:
 		case 116:
 			goto st583
 		}
-		goto tr416
+		goto tr417
 	st583:
 		if p++; p == pe {
 			goto _test_eof583
@@ -14762,7 +14781,7 @@ tr753:
 		case 105:
 			goto st584
 		}
-		goto tr416
+		goto tr417
 	st584:
 		if p++; p == pe {
 			goto _test_eof584
@@ -14774,7 +14793,7 @@ tr753:
 		case 116:
 			goto st585
 		}
-		goto tr416
+		goto tr417
 	st585:
 		if p++; p == pe {
 			goto _test_eof585
@@ -14786,7 +14805,7 @@ tr753:
 		case 121:
 			goto st586
 		}
-		goto tr416
+		goto tr417
 	st586:
 		if p++; p == pe {
 			goto _test_eof586
@@ -14794,13 +14813,13 @@ tr753:
 	st_case_586:
 		switch data[p] {
 		case 9:
-			goto tr788
+			goto tr789
 		case 32:
-			goto tr788
-		case 58:
 			goto tr789
+		case 58:
+			goto tr790
 		}
-		goto tr416
+		goto tr417
 	st587:
 		if p++; p == pe {
 			goto _test_eof587
@@ -14816,7 +14835,7 @@ tr753:
 		case 111:
 			goto st594
 		}
-		goto tr416
+		goto tr417
 	st588:
 		if p++; p == pe {
 			goto _test_eof588
@@ -14828,7 +14847,7 @@ tr753:
 		case 111:
 			goto st589
 		}
-		goto tr416
+		goto tr417
 	st589:
 		if p++; p == pe {
 			goto _test_eof589
@@ -14840,7 +14859,7 @@ tr753:
 		case 114:
 			goto st590
 		}
-		goto tr416
+		goto tr417
 	st590:
 		if p++; p == pe {
 			goto _test_eof590
@@ -14852,7 +14871,7 @@ tr753:
 		case 105:
 			goto st591
 		}
-		goto tr416
+		goto tr417
 	st591:
 		if p++; p == pe {
 			goto _test_eof591
@@ -14864,7 +14883,7 @@ tr753:
 		case 116:
 			goto st592
 		}
-		goto tr416
+		goto tr417
 	st592:
 		if p++; p == pe {
 			goto _test_eof592
@@ -14876,7 +14895,7 @@ tr753:
 		case 121:
 			goto st593
 		}
-		goto tr416
+		goto tr417
 	st593:
 		if p++; p == pe {
 			goto _test_eof593
@@ -14884,13 +14903,13 @@ tr753:
 	st_case_593:
 		switch data[p] {
 		case 9:
-			goto tr797
+			goto tr798
 		case 32:
-			goto tr797
-		case 58:
 			goto tr798
+		case 58:
+			goto tr799
 		}
-		goto tr416
+		goto tr417
 	st594:
 		if p++; p == pe {
 			goto _test_eof594
@@ -14902,7 +14921,7 @@ tr753:
 		case 120:
 			goto st595
 		}
-		goto tr416
+		goto tr417
 	st595:
 		if p++; p == pe {
 			goto _test_eof595
@@ -14914,7 +14933,7 @@ tr753:
 		case 121:
 			goto st596
 		}
-		goto tr416
+		goto tr417
 	st596:
 		if p++; p == pe {
 			goto _test_eof596
@@ -14923,7 +14942,7 @@ tr753:
 		if data[p] == 45 {
 			goto st597
 		}
-		goto tr416
+		goto tr417
 	st597:
 		if p++; p == pe {
 			goto _test_eof597
@@ -14939,7 +14958,7 @@ tr753:
 		case 114:
 			goto st619
 		}
-		goto tr416
+		goto tr417
 	st598:
 		if p++; p == pe {
 			goto _test_eof598
@@ -14951,7 +14970,7 @@ tr753:
 		case 117:
 			goto st599
 		}
-		goto tr416
+		goto tr417
 	st599:
 		if p++; p == pe {
 			goto _test_eof599
@@ -14963,7 +14982,7 @@ tr753:
 		case 116:
 			goto st600
 		}
-		goto tr416
+		goto tr417
 	st600:
 		if p++; p == pe {
 			goto _test_eof600
@@ -14975,7 +14994,7 @@ tr753:
 		case 104:
 			goto st601
 		}
-		goto tr416
+		goto tr417
 	st601:
 		if p++; p == pe {
 			goto _test_eof601
@@ -14991,7 +15010,7 @@ tr753:
 		case 111:
 			goto st610
 		}
-		goto tr416
+		goto tr417
 	st602:
 		if p++; p == pe {
 			goto _test_eof602
@@ -15003,7 +15022,7 @@ tr753:
 		case 110:
 			goto st603
 		}
-		goto tr416
+		goto tr417
 	st603:
 		if p++; p == pe {
 			goto _test_eof603
@@ -15015,7 +15034,7 @@ tr753:
 		case 116:
 			goto st604
 		}
-		goto tr416
+		goto tr417
 	st604:
 		if p++; p == pe {
 			goto _test_eof604
@@ -15027,7 +15046,7 @@ tr753:
 		case 105:
 			goto st605
 		}
-		goto tr416
+		goto tr417
 	st605:
 		if p++; p == pe {
 			goto _test_eof605
@@ -15039,7 +15058,7 @@ tr753:
 		case 99:
 			goto st606
 		}
-		goto tr416
+		goto tr417
 	st606:
 		if p++; p == pe {
 			goto _test_eof606
@@ -15051,7 +15070,7 @@ tr753:
 		case 97:
 			goto st607
 		}
-		goto tr416
+		goto tr417
 	st607:
 		if p++; p == pe {
 			goto _test_eof607
@@ -15063,7 +15082,7 @@ tr753:
 		case 116:
 			goto st608
 		}
-		goto tr416
+		goto tr417
 	st608:
 		if p++; p == pe {
 			goto _test_eof608
@@ -15075,7 +15094,7 @@ tr753:
 		case 101:
 			goto st609
 		}
-		goto tr416
+		goto tr417
 	st609:
 		if p++; p == pe {
 			goto _test_eof609
@@ -15083,13 +15102,13 @@ tr753:
 	st_case_609:
 		switch data[p] {
 		case 9:
-			goto tr816
+			goto tr817
 		case 32:
-			goto tr816
-		case 58:
 			goto tr817
+		case 58:
+			goto tr818
 		}
-		goto tr416
+		goto tr417
 	st610:
 		if p++; p == pe {
 			goto _test_eof610
@@ -15101,7 +15120,7 @@ tr753:
 		case 114:
 			goto st611
 		}
-		goto tr416
+		goto tr417
 	st611:
 		if p++; p == pe {
 			goto _test_eof611
@@ -15113,7 +15132,7 @@ tr753:
 		case 105:
 			goto st612
 		}
-		goto tr416
+		goto tr417
 	st612:
 		if p++; p == pe {
 			goto _test_eof612
@@ -15125,7 +15144,7 @@ tr753:
 		case 122:
 			goto st613
 		}
-		goto tr416
+		goto tr417
 	st613:
 		if p++; p == pe {
 			goto _test_eof613
@@ -15137,7 +15156,7 @@ tr753:
 		case 97:
 			goto st614
 		}
-		goto tr416
+		goto tr417
 	st614:
 		if p++; p == pe {
 			goto _test_eof614
@@ -15149,7 +15168,7 @@ tr753:
 		case 116:
 			goto st615
 		}
-		goto tr416
+		goto tr417
 	st615:
 		if p++; p == pe {
 			goto _test_eof615
@@ -15161,7 +15180,7 @@ tr753:
 		case 105:
 			goto st616
 		}
-		goto tr416
+		goto tr417
 	st616:
 		if p++; p == pe {
 			goto _test_eof616
@@ -15173,7 +15192,7 @@ tr753:
 		case 111:
 			goto st617
 		}
-		goto tr416
+		goto tr417
 	st617:
 		if p++; p == pe {
 			goto _test_eof617
@@ -15185,7 +15204,7 @@ tr753:
 		case 110:
 			goto st618
 		}
-		goto tr416
+		goto tr417
 	st618:
 		if p++; p == pe {
 			goto _test_eof618
@@ -15193,13 +15212,13 @@ tr753:
 	st_case_618:
 		switch data[p] {
 		case 9:
-			goto tr826
+			goto tr827
 		case 32:
-			goto tr826
-		case 58:
 			goto tr827
+		case 58:
+			goto tr828
 		}
-		goto tr416
+		goto tr417
 	st619:
 		if p++; p == pe {
 			goto _test_eof619
@@ -15211,7 +15230,7 @@ tr753:
 		case 101:
 			goto st620
 		}
-		goto tr416
+		goto tr417
 	st620:
 		if p++; p == pe {
 			goto _test_eof620
@@ -15223,7 +15242,7 @@ tr753:
 		case 113:
 			goto st621
 		}
-		goto tr416
+		goto tr417
 	st621:
 		if p++; p == pe {
 			goto _test_eof621
@@ -15235,7 +15254,7 @@ tr753:
 		case 117:
 			goto st622
 		}
-		goto tr416
+		goto tr417
 	st622:
 		if p++; p == pe {
 			goto _test_eof622
@@ -15247,7 +15266,7 @@ tr753:
 		case 105:
 			goto st623
 		}
-		goto tr416
+		goto tr417
 	st623:
 		if p++; p == pe {
 			goto _test_eof623
@@ -15259,7 +15278,7 @@ tr753:
 		case 114:
 			goto st624
 		}
-		goto tr416
+		goto tr417
 	st624:
 		if p++; p == pe {
 			goto _test_eof624
@@ -15271,7 +15290,7 @@ tr753:
 		case 101:
 			goto st625
 		}
-		goto tr416
+		goto tr417
 	st625:
 		if p++; p == pe {
 			goto _test_eof625
@@ -15279,13 +15298,13 @@ tr753:
 	st_case_625:
 		switch data[p] {
 		case 9:
-			goto tr834
+			goto tr835
 		case 32:
-			goto tr834
-		case 58:
 			goto tr835
+		case 58:
+			goto tr836
 		}
-		goto tr416
+		goto tr417
 	st626:
 		if p++; p == pe {
 			goto _test_eof626
@@ -15293,11 +15312,11 @@ tr753:
 	st_case_626:
 		switch data[p] {
 		case 9:
-			goto tr836
+			goto tr837
 		case 32:
-			goto tr836
-		case 58:
 			goto tr837
+		case 58:
+			goto tr838
 		case 69:
 			goto st627
 		case 79:
@@ -15307,7 +15326,7 @@ tr753:
 		case 111:
 			goto st682
 		}
-		goto tr416
+		goto tr417
 	st627:
 		if p++; p == pe {
 			goto _test_eof627
@@ -15339,7 +15358,7 @@ tr753:
 		case 116:
 			goto st673
 		}
-		goto tr416
+		goto tr417
 	st628:
 		if p++; p == pe {
 			goto _test_eof628
@@ -15351,7 +15370,7 @@ tr753:
 		case 111:
 			goto st629
 		}
-		goto tr416
+		goto tr417
 	st629:
 		if p++; p == pe {
 			goto _test_eof629
@@ -15363,7 +15382,7 @@ tr753:
 		case 114:
 			goto st630
 		}
-		goto tr416
+		goto tr417
 	st630:
 		if p++; p == pe {
 			goto _test_eof630
@@ -15375,7 +15394,7 @@ tr753:
 		case 100:
 			goto st631
 		}
-		goto tr416
+		goto tr417
 	st631:
 		if p++; p == pe {
 			goto _test_eof631
@@ -15384,7 +15403,7 @@ tr753:
 		if data[p] == 45 {
 			goto st632
 		}
-		goto tr416
+		goto tr417
 	st632:
 		if p++; p == pe {
 			goto _test_eof632
@@ -15396,7 +15415,7 @@ tr753:
 		case 114:
 			goto st633
 		}
-		goto tr416
+		goto tr417
 	st633:
 		if p++; p == pe {
 			goto _test_eof633
@@ -15408,7 +15427,7 @@ tr753:
 		case 111:
 			goto st634
 		}
-		goto tr416
+		goto tr417
 	st634:
 		if p++; p == pe {
 			goto _test_eof634
@@ -15420,7 +15439,7 @@ tr753:
 		case 117:
 			goto st635
 		}
-		goto tr416
+		goto tr417
 	st635:
 		if p++; p == pe {
 			goto _test_eof635
@@ -15432,7 +15451,7 @@ tr753:
 		case 116:
 			goto st636
 		}
-		goto tr416
+		goto tr417
 	st636:
 		if p++; p == pe {
 			goto _test_eof636
@@ -15444,7 +15463,7 @@ tr753:
 		case 101:
 			goto st637
 		}
-		goto tr416
+		goto tr417
 	st637:
 		if p++; p == pe {
 			goto _test_eof637
@@ -15452,13 +15471,13 @@ tr753:
 	st_case_637:
 		switch data[p] {
 		case 9:
-			goto tr855
+			goto tr856
 		case 32:
-			goto tr855
-		case 58:
 			goto tr856
+		case 58:
+			goto tr857
 		}
-		goto tr416
+		goto tr417
 	st638:
 		if p++; p == pe {
 			goto _test_eof638
@@ -15470,7 +15489,7 @@ tr753:
 		case 101:
 			goto st639
 		}
-		goto tr416
+		goto tr417
 	st639:
 		if p++; p == pe {
 			goto _test_eof639
@@ -15482,7 +15501,7 @@ tr753:
 		case 114:
 			goto st640
 		}
-		goto tr416
+		goto tr417
 	st640:
 		if p++; p == pe {
 			goto _test_eof640
@@ -15496,7 +15515,7 @@ tr753:
 		case 114:
 			goto st644
 		}
-		goto tr416
+		goto tr417
 	st641:
 		if p++; p == pe {
 			goto _test_eof641
@@ -15508,7 +15527,7 @@ tr753:
 		case 116:
 			goto st642
 		}
-		goto tr416
+		goto tr417
 	st642:
 		if p++; p == pe {
 			goto _test_eof642
@@ -15520,7 +15539,7 @@ tr753:
 		case 111:
 			goto st643
 		}
-		goto tr416
+		goto tr417
 	st643:
 		if p++; p == pe {
 			goto _test_eof643
@@ -15528,13 +15547,13 @@ tr753:
 	st_case_643:
 		switch data[p] {
 		case 9:
-			goto tr836
+			goto tr837
 		case 32:
-			goto tr836
-		case 58:
 			goto tr837
+		case 58:
+			goto tr838
 		}
-		goto tr416
+		goto tr417
 	st644:
 		if p++; p == pe {
 			goto _test_eof644
@@ -15546,7 +15565,7 @@ tr753:
 		case 101:
 			goto st645
 		}
-		goto tr416
+		goto tr417
 	st645:
 		if p++; p == pe {
 			goto _test_eof645
@@ -15558,7 +15577,7 @@ tr753:
 		case 100:
 			goto st646
 		}
-		goto tr416
+		goto tr417
 	st646:
 		if p++; p == pe {
 			goto _test_eof646
@@ -15567,7 +15586,7 @@ tr753:
 		if data[p] == 45 {
 			goto st647
 		}
-		goto tr416
+		goto tr417
 	st647:
 		if p++; p == pe {
 			goto _test_eof647
@@ -15579,7 +15598,7 @@ tr753:
 		case 98:
 			goto st648
 		}
-		goto tr416
+		goto tr417
 	st648:
 		if p++; p == pe {
 			goto _test_eof648
@@ -15591,7 +15610,7 @@ tr753:
 		case 121:
 			goto st363
 		}
-		goto tr416
+		goto tr417
 	st649:
 		if p++; p == pe {
 			goto _test_eof649
@@ -15603,7 +15622,7 @@ tr753:
 		case 111:
 			goto st650
 		}
-		goto tr416
+		goto tr417
 	st650:
 		if p++; p == pe {
 			goto _test_eof650
@@ -15615,7 +15634,7 @@ tr753:
 		case 116:
 			goto st651
 		}
-		goto tr416
+		goto tr417
 	st651:
 		if p++; p == pe {
 			goto _test_eof651
@@ -15627,7 +15646,7 @@ tr753:
 		case 101:
 			goto st652
 		}
-		goto tr416
+		goto tr417
 	st652:
 		if p++; p == pe {
 			goto _test_eof652
@@ -15636,7 +15655,7 @@ tr753:
 		if data[p] == 45 {
 			goto st653
 		}
-		goto tr416
+		goto tr417
 	st653:
 		if p++; p == pe {
 			goto _test_eof653
@@ -15648,7 +15667,7 @@ tr753:
 		case 112:
 			goto st654
 		}
-		goto tr416
+		goto tr417
 	st654:
 		if p++; p == pe {
 			goto _test_eof654
@@ -15660,7 +15679,7 @@ tr753:
 		case 97:
 			goto st655
 		}
-		goto tr416
+		goto tr417
 	st655:
 		if p++; p == pe {
 			goto _test_eof655
@@ -15672,7 +15691,7 @@ tr753:
 		case 114:
 			goto st656
 		}
-		goto tr416
+		goto tr417
 	st656:
 		if p++; p == pe {
 			goto _test_eof656
@@ -15684,7 +15703,7 @@ tr753:
 		case 116:
 			goto st657
 		}
-		goto tr416
+		goto tr417
 	st657:
 		if p++; p == pe {
 			goto _test_eof657
@@ -15696,7 +15715,7 @@ tr753:
 		case 121:
 			goto st658
 		}
-		goto tr416
+		goto tr417
 	st658:
 		if p++; p == pe {
 			goto _test_eof658
@@ -15705,7 +15724,7 @@ tr753:
 		if data[p] == 45 {
 			goto st659
 		}
-		goto tr416
+		goto tr417
 	st659:
 		if p++; p == pe {
 			goto _test_eof659
@@ -15717,7 +15736,7 @@ tr753:
 		case 105:
 			goto st660
 		}
-		goto tr416
+		goto tr417
 	st660:
 		if p++; p == pe {
 			goto _test_eof660
@@ -15729,7 +15748,7 @@ tr753:
 		case 100:
 			goto st661
 		}
-		goto tr416
+		goto tr417
 	st661:
 		if p++; p == pe {
 			goto _test_eof661
@@ -15737,13 +15756,13 @@ tr753:
 	st_case_661:
 		switch data[p] {
 		case 9:
-			goto tr879
+			goto tr880
 		case 32:
-			goto tr879
-		case 58:
 			goto tr880
+		case 58:
+			goto tr881
 		}
-		goto tr416
+		goto tr417
 	st662:
 		if p++; p == pe {
 			goto _test_eof662
@@ -15755,7 +15774,7 @@ tr753:
 		case 108:
 			goto st663
 		}
-		goto tr416
+		goto tr417
 	st663:
 		if p++; p == pe {
 			goto _test_eof663
@@ -15767,7 +15786,7 @@ tr753:
 		case 121:
 			goto st664
 		}
-		goto tr416
+		goto tr417
 	st664:
 		if p++; p == pe {
 			goto _test_eof664
@@ -15776,7 +15795,7 @@ tr753:
 		if data[p] == 45 {
 			goto st665
 		}
-		goto tr416
+		goto tr417
 	st665:
 		if p++; p == pe {
 			goto _test_eof665
@@ -15788,7 +15807,7 @@ tr753:
 		case 116:
 			goto st666
 		}
-		goto tr416
+		goto tr417
 	st666:
 		if p++; p == pe {
 			goto _test_eof666
@@ -15800,7 +15819,7 @@ tr753:
 		case 111:
 			goto st667
 		}
-		goto tr416
+		goto tr417
 	st667:
 		if p++; p == pe {
 			goto _test_eof667
@@ -15808,13 +15827,13 @@ tr753:
 	st_case_667:
 		switch data[p] {
 		case 9:
-			goto tr886
+			goto tr887
 		case 32:
-			goto tr886
-		case 58:
 			goto tr887
+		case 58:
+			goto tr888
 		}
-		goto tr416
+		goto tr417
 	st668:
 		if p++; p == pe {
 			goto _test_eof668
@@ -15826,7 +15845,7 @@ tr753:
 		case 117:
 			goto st669
 		}
-		goto tr416
+		goto tr417
 	st669:
 		if p++; p == pe {
 			goto _test_eof669
@@ -15838,7 +15857,7 @@ tr753:
 		case 105:
 			goto st670
 		}
-		goto tr416
+		goto tr417
 	st670:
 		if p++; p == pe {
 			goto _test_eof670
@@ -15850,7 +15869,7 @@ tr753:
 		case 114:
 			goto st671
 		}
-		goto tr416
+		goto tr417
 	st671:
 		if p++; p == pe {
 			goto _test_eof671
@@ -15862,7 +15881,7 @@ tr753:
 		case 101:
 			goto st672
 		}
-		goto tr416
+		goto tr417
 	st672:
 		if p++; p == pe {
 			goto _test_eof672
@@ -15870,13 +15889,13 @@ tr753:
 	st_case_672:
 		switch data[p] {
 		case 9:
-			goto tr892
+			goto tr893
 		case 32:
-			goto tr892
-		case 58:
 			goto tr893
+		case 58:
+			goto tr894
 		}
-		goto tr416
+		goto tr417
 	st673:
 		if p++; p == pe {
 			goto _test_eof673
@@ -15888,7 +15907,7 @@ tr753:
 		case 114:
 			goto st674
 		}
-		goto tr416
+		goto tr417
 	st674:
 		if p++; p == pe {
 			goto _test_eof674
@@ -15900,7 +15919,7 @@ tr753:
 		case 121:
 			goto st675
 		}
-		goto tr416
+		goto tr417
 	st675:
 		if p++; p == pe {
 			goto _test_eof675
@@ -15909,7 +15928,7 @@ tr753:
 		if data[p] == 45 {
 			goto st676
 		}
-		goto tr416
+		goto tr417
 	st676:
 		if p++; p == pe {
 			goto _test_eof676
@@ -15921,7 +15940,7 @@ tr753:
 		case 97:
 			goto st677
 		}
-		goto tr416
+		goto tr417
 	st677:
 		if p++; p == pe {
 			goto _test_eof677
@@ -15933,7 +15952,7 @@ tr753:
 		case 102:
 			goto st678
 		}
-		goto tr416
+		goto tr417
 	st678:
 		if p++; p == pe {
 			goto _test_eof678
@@ -15945,7 +15964,7 @@ tr753:
 		case 116:
 			goto st679
 		}
-		goto tr416
+		goto tr417
 	st679:
 		if p++; p == pe {
 			goto _test_eof679
@@ -15957,7 +15976,7 @@ tr753:
 		case 101:
 			goto st680
 		}
-		goto tr416
+		goto tr417
 	st680:
 		if p++; p == pe {
 			goto _test_eof680
@@ -15969,7 +15988,7 @@ tr753:
 		case 114:
 			goto st681
 		}
-		goto tr416
+		goto tr417
 	st681:
 		if p++; p == pe {
 			goto _test_eof681
@@ -15977,13 +15996,13 @@ tr753:
 	st_case_681:
 		switch data[p] {
 		case 9:
-			goto tr902
+			goto tr903
 		case 32:
-			goto tr902
-		case 58:
 			goto tr903
+		case 58:
+			goto tr904
 		}
-		goto tr416
+		goto tr417
 	st682:
 		if p++; p == pe {
 			goto _test_eof682
@@ -15995,7 +16014,7 @@ tr753:
 		case 117:
 			goto st683
 		}
-		goto tr416
+		goto tr417
 	st683:
 		if p++; p == pe {
 			goto _test_eof683
@@ -16007,7 +16026,7 @@ tr753:
 		case 116:
 			goto st684
 		}
-		goto tr416
+		goto tr417
 	st684:
 		if p++; p == pe {
 			goto _test_eof684
@@ -16019,7 +16038,7 @@ tr753:
 		case 101:
 			goto st685
 		}
-		goto tr416
+		goto tr417
 	st685:
 		if p++; p == pe {
 			goto _test_eof685
@@ -16027,13 +16046,13 @@ tr753:
 	st_case_685:
 		switch data[p] {
 		case 9:
-			goto tr907
+			goto tr908
 		case 32:
-			goto tr907
-		case 58:
 			goto tr908
+		case 58:
+			goto tr909
 		}
-		goto tr416
+		goto tr417
 	st686:
 		if p++; p == pe {
 			goto _test_eof686
@@ -16041,11 +16060,11 @@ tr753:
 	st_case_686:
 		switch data[p] {
 		case 9:
-			goto tr909
+			goto tr910
 		case 32:
-			goto tr909
-		case 58:
 			goto tr910
+		case 58:
+			goto tr911
 		case 69:
 			goto st687
 		case 85:
@@ -16055,7 +16074,7 @@ tr753:
 		case 117:
 			goto st692
 		}
-		goto tr416
+		goto tr417
 	st687:
 		if p++; p == pe {
 			goto _test_eof687
@@ -16067,7 +16086,7 @@ tr753:
 		case 114:
 			goto st688
 		}
-		goto tr416
+		goto tr417
 	st688:
 		if p++; p == pe {
 			goto _test_eof688
@@ -16079,7 +16098,7 @@ tr753:
 		case 118:
 			goto st689
 		}
-		goto tr416
+		goto tr417
 	st689:
 		if p++; p == pe {
 			goto _test_eof689
@@ -16091,7 +16110,7 @@ tr753:
 		case 101:
 			goto st690
 		}
-		goto tr416
+		goto tr417
 	st690:
 		if p++; p == pe {
 			goto _test_eof690
@@ -16103,7 +16122,7 @@ tr753:
 		case 114:
 			goto st691
 		}
-		goto tr416
+		goto tr417
 	st691:
 		if p++; p == pe {
 			goto _test_eof691
@@ -16111,13 +16130,13 @@ tr753:
 	st_case_691:
 		switch data[p] {
 		case 9:
-			goto tr917
+			goto tr918
 		case 32:
-			goto tr917
-		case 58:
 			goto tr918
+		case 58:
+			goto tr919
 		}
-		goto tr416
+		goto tr417
 	st692:
 		if p++; p == pe {
 			goto _test_eof692
@@ -16133,7 +16152,7 @@ tr753:
 		case 112:
 			goto st698
 		}
-		goto tr416
+		goto tr417
 	st693:
 		if p++; p == pe {
 			goto _test_eof693
@@ -16145,7 +16164,7 @@ tr753:
 		case 106:
 			goto st694
 		}
-		goto tr416
+		goto tr417
 	st694:
 		if p++; p == pe {
 			goto _test_eof694
@@ -16157,7 +16176,7 @@ tr753:
 		case 101:
 			goto st695
 		}
-		goto tr416
+		goto tr417
 	st695:
 		if p++; p == pe {
 			goto _test_eof695
@@ -16169,7 +16188,7 @@ tr753:
 		case 99:
 			goto st696
 		}
-		goto tr416
+		goto tr417
 	st696:
 		if p++; p == pe {
 			goto _test_eof696
@@ -16181,7 +16200,7 @@ tr753:
 		case 116:
 			goto st697
 		}
-		goto tr416
+		goto tr417
 	st697:
 		if p++; p == pe {
 			goto _test_eof697
@@ -16189,13 +16208,13 @@ tr753:
 	st_case_697:
 		switch data[p] {
 		case 9:
-			goto tr909
+			goto tr910
 		case 32:
-			goto tr909
-		case 58:
 			goto tr910
+		case 58:
+			goto tr911
 		}
-		goto tr416
+		goto tr417
 	st698:
 		if p++; p == pe {
 			goto _test_eof698
@@ -16207,7 +16226,7 @@ tr753:
 		case 112:
 			goto st699
 		}
-		goto tr416
+		goto tr417
 	st699:
 		if p++; p == pe {
 			goto _test_eof699
@@ -16219,7 +16238,7 @@ tr753:
 		case 111:
 			goto st700
 		}
-		goto tr416
+		goto tr417
 	st700:
 		if p++; p == pe {
 			goto _test_eof700
@@ -16231,7 +16250,7 @@ tr753:
 		case 114:
 			goto st701
 		}
-		goto tr416
+		goto tr417
 	st701:
 		if p++; p == pe {
 			goto _test_eof701
@@ -16243,7 +16262,7 @@ tr753:
 		case 116:
 			goto st702
 		}
-		goto tr416
+		goto tr417
 	st702:
 		if p++; p == pe {
 			goto _test_eof702
@@ -16255,7 +16274,7 @@ tr753:
 		case 101:
 			goto st703
 		}
-		goto tr416
+		goto tr417
 	st703:
 		if p++; p == pe {
 			goto _test_eof703
@@ -16267,7 +16286,7 @@ tr753:
 		case 100:
 			goto st504
 		}
-		goto tr416
+		goto tr417
 	st704:
 		if p++; p == pe {
 			goto _test_eof704
@@ -16275,11 +16294,11 @@ tr753:
 	st_case_704:
 		switch data[p] {
 		case 9:
-			goto tr930
+			goto tr931
 		case 32:
-			goto tr930
-		case 58:
 			goto tr931
+		case 58:
+			goto tr932
 		case 73:
 			goto st705
 		case 79:
@@ -16289,7 +16308,7 @@ tr753:
 		case 111:
 			goto st713
 		}
-		goto tr416
+		goto tr417
 	st705:
 		if p++; p == pe {
 			goto _test_eof705
@@ -16301,7 +16320,7 @@ tr753:
 		case 109:
 			goto st706
 		}
-		goto tr416
+		goto tr417
 	st706:
 		if p++; p == pe {
 			goto _test_eof706
@@ -16313,7 +16332,7 @@ tr753:
 		case 101:
 			goto st707
 		}
-		goto tr416
+		goto tr417
 	st707:
 		if p++; p == pe {
 			goto _test_eof707
@@ -16325,7 +16344,7 @@ tr753:
 		case 115:
 			goto st708
 		}
-		goto tr416
+		goto tr417
 	st708:
 		if p++; p == pe {
 			goto _test_eof708
@@ -16337,7 +16356,7 @@ tr753:
 		case 116:
 			goto st709
 		}
-		goto tr416
+		goto tr417
 	st709:
 		if p++; p == pe {
 			goto _test_eof709
@@ -16349,7 +16368,7 @@ tr753:
 		case 97:
 			goto st710
 		}
-		goto tr416
+		goto tr417
 	st710:
 		if p++; p == pe {
 			goto _test_eof710
@@ -16361,7 +16380,7 @@ tr753:
 		case 109:
 			goto st711
 		}
-		goto tr416
+		goto tr417
 	st711:
 		if p++; p == pe {
 			goto _test_eof711
@@ -16373,7 +16392,7 @@ tr753:
 		case 112:
 			goto st712
 		}
-		goto tr416
+		goto tr417
 	st712:
 		if p++; p == pe {
 			goto _test_eof712
@@ -16381,13 +16400,13 @@ tr753:
 	st_case_712:
 		switch data[p] {
 		case 9:
-			goto tr941
+			goto tr942
 		case 32:
-			goto tr941
-		case 58:
 			goto tr942
+		case 58:
+			goto tr943
 		}
-		goto tr416
+		goto tr417
 	st713:
 		if p++; p == pe {
 			goto _test_eof713
@@ -16395,13 +16414,13 @@ tr753:
 	st_case_713:
 		switch data[p] {
 		case 9:
-			goto tr930
+			goto tr931
 		case 32:
-			goto tr930
-		case 58:
 			goto tr931
+		case 58:
+			goto tr932
 		}
-		goto tr416
+		goto tr417
 	st714:
 		if p++; p == pe {
 			goto _test_eof714
@@ -16409,11 +16428,11 @@ tr753:
 	st_case_714:
 		switch data[p] {
 		case 9:
-			goto tr943
+			goto tr944
 		case 32:
-			goto tr943
-		case 58:
 			goto tr944
+		case 58:
+			goto tr945
 		case 78:
 			goto st715
 		case 83:
@@ -16423,7 +16442,7 @@ tr753:
 		case 115:
 			goto st725
 		}
-		goto tr416
+		goto tr417
 	st715:
 		if p++; p == pe {
 			goto _test_eof715
@@ -16435,7 +16454,7 @@ tr753:
 		case 115:
 			goto st716
 		}
-		goto tr416
+		goto tr417
 	st716:
 		if p++; p == pe {
 			goto _test_eof716
@@ -16447,7 +16466,7 @@ tr753:
 		case 117:
 			goto st717
 		}
-		goto tr416
+		goto tr417
 	st717:
 		if p++; p == pe {
 			goto _test_eof717
@@ -16459,7 +16478,7 @@ tr753:
 		case 112:
 			goto st718
 		}
-		goto tr416
+		goto tr417
 	st718:
 		if p++; p == pe {
 			goto _test_eof718
@@ -16471,7 +16490,7 @@ tr753:
 		case 112:
 			goto st719
 		}
-		goto tr416
+		goto tr417
 	st719:
 		if p++; p == pe {
 			goto _test_eof719
@@ -16483,7 +16502,7 @@ tr753:
 		case 111:
 			goto st720
 		}
-		goto tr416
+		goto tr417
 	st720:
 		if p++; p == pe {
 			goto _test_eof720
@@ -16495,7 +16514,7 @@ tr753:
 		case 114:
 			goto st721
 		}
-		goto tr416
+		goto tr417
 	st721:
 		if p++; p == pe {
 			goto _test_eof721
@@ -16507,7 +16526,7 @@ tr753:
 		case 116:
 			goto st722
 		}
-		goto tr416
+		goto tr417
 	st722:
 		if p++; p == pe {
 			goto _test_eof722
@@ -16519,7 +16538,7 @@ tr753:
 		case 101:
 			goto st723
 		}
-		goto tr416
+		goto tr417
 	st723:
 		if p++; p == pe {
 			goto _test_eof723
@@ -16531,7 +16550,7 @@ tr753:
 		case 100:
 			goto st724
 		}
-		goto tr416
+		goto tr417
 	st724:
 		if p++; p == pe {
 			goto _test_eof724
@@ -16539,13 +16558,13 @@ tr753:
 	st_case_724:
 		switch data[p] {
 		case 9:
-			goto tr956
+			goto tr957
 		case 32:
-			goto tr956
-		case 58:
 			goto tr957
+		case 58:
+			goto tr958
 		}
-		goto tr416
+		goto tr417
 	st725:
 		if p++; p == pe {
 			goto _test_eof725
@@ -16557,7 +16576,7 @@ tr753:
 		case 101:
 			goto st726
 		}
-		goto tr416
+		goto tr417
 	st726:
 		if p++; p == pe {
 			goto _test_eof726
@@ -16569,7 +16588,7 @@ tr753:
 		case 114:
 			goto st727
 		}
-		goto tr416
+		goto tr417
 	st727:
 		if p++; p == pe {
 			goto _test_eof727
@@ -16578,7 +16597,7 @@ tr753:
 		if data[p] == 45 {
 			goto st728
 		}
-		goto tr416
+		goto tr417
 	st728:
 		if p++; p == pe {
 			goto _test_eof728
@@ -16590,7 +16609,7 @@ tr753:
 		case 97:
 			goto st729
 		}
-		goto tr416
+		goto tr417
 	st729:
 		if p++; p == pe {
 			goto _test_eof729
@@ -16602,7 +16621,7 @@ tr753:
 		case 103:
 			goto st730
 		}
-		goto tr416
+		goto tr417
 	st730:
 		if p++; p == pe {
 			goto _test_eof730
@@ -16614,7 +16633,7 @@ tr753:
 		case 101:
 			goto st731
 		}
-		goto tr416
+		goto tr417
 	st731:
 		if p++; p == pe {
 			goto _test_eof731
@@ -16626,7 +16645,7 @@ tr753:
 		case 110:
 			goto st732
 		}
-		goto tr416
+		goto tr417
 	st732:
 		if p++; p == pe {
 			goto _test_eof732
@@ -16638,7 +16657,7 @@ tr753:
 		case 116:
 			goto st733
 		}
-		goto tr416
+		goto tr417
 	st733:
 		if p++; p == pe {
 			goto _test_eof733
@@ -16646,13 +16665,13 @@ tr753:
 	st_case_733:
 		switch data[p] {
 		case 9:
-			goto tr966
+			goto tr967
 		case 32:
-			goto tr966
-		case 58:
 			goto tr967
+		case 58:
+			goto tr968
 		}
-		goto tr416
+		goto tr417
 	st734:
 		if p++; p == pe {
 			goto _test_eof734
@@ -16670,7 +16689,7 @@ tr753:
 		case 105:
 			goto st740
 		}
-		goto tr416
+		goto tr417
 	st735:
 		if p++; p == pe {
 			goto _test_eof735
@@ -16703,17 +16722,17 @@ tr753:
 		case 32:
 			goto st736
 		case 269:
-			goto tr971
+			goto tr972
 		case 525:
 			goto st737
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr971
+				goto tr972
 			}
 		default:
-			goto tr971
+			goto tr972
 		}
 		goto st0
 	st737:
@@ -16748,7 +16767,7 @@ tr753:
 		case 32:
 			goto st739
 		}
-		goto tr971
+		goto tr972
 	st740:
 		if p++; p == pe {
 			goto _test_eof740
@@ -16760,7 +16779,7 @@ tr753:
 		case 97:
 			goto st741
 		}
-		goto tr416
+		goto tr417
 	st741:
 		if p++; p == pe {
 			goto _test_eof741
@@ -16774,7 +16793,7 @@ tr753:
 		case 58:
 			goto st736
 		}
-		goto tr416
+		goto tr417
 	st742:
 		if p++; p == pe {
 			goto _test_eof742
@@ -16790,7 +16809,7 @@ tr753:
 		case 119:
 			goto st749
 		}
-		goto tr416
+		goto tr417
 	st743:
 		if p++; p == pe {
 			goto _test_eof743
@@ -16802,7 +16821,7 @@ tr753:
 		case 114:
 			goto st744
 		}
-		goto tr416
+		goto tr417
 	st744:
 		if p++; p == pe {
 			goto _test_eof744
@@ -16814,7 +16833,7 @@ tr753:
 		case 110:
 			goto st745
 		}
-		goto tr416
+		goto tr417
 	st745:
 		if p++; p == pe {
 			goto _test_eof745
@@ -16826,7 +16845,7 @@ tr753:
 		case 105:
 			goto st746
 		}
-		goto tr416
+		goto tr417
 	st746:
 		if p++; p == pe {
 			goto _test_eof746
@@ -16838,7 +16857,7 @@ tr753:
 		case 110:
 			goto st747
 		}
-		goto tr416
+		goto tr417
 	st747:
 		if p++; p == pe {
 			goto _test_eof747
@@ -16850,7 +16869,7 @@ tr753:
 		case 103:
 			goto st748
 		}
-		goto tr416
+		goto tr417
 	st748:
 		if p++; p == pe {
 			goto _test_eof748
@@ -16858,13 +16877,13 @@ tr753:
 	st_case_748:
 		switch data[p] {
 		case 9:
-			goto tr983
+			goto tr984
 		case 32:
-			goto tr983
-		case 58:
 			goto tr984
+		case 58:
+			goto tr985
 		}
-		goto tr416
+		goto tr417
 	st749:
 		if p++; p == pe {
 			goto _test_eof749
@@ -16876,7 +16895,7 @@ tr753:
 		case 119:
 			goto st750
 		}
-		goto tr416
+		goto tr417
 	st750:
 		if p++; p == pe {
 			goto _test_eof750
@@ -16885,7 +16904,7 @@ tr753:
 		if data[p] == 45 {
 			goto st751
 		}
-		goto tr416
+		goto tr417
 	st751:
 		if p++; p == pe {
 			goto _test_eof751
@@ -16897,7 +16916,7 @@ tr753:
 		case 97:
 			goto st752
 		}
-		goto tr416
+		goto tr417
 	st752:
 		if p++; p == pe {
 			goto _test_eof752
@@ -16909,7 +16928,7 @@ tr753:
 		case 117:
 			goto st753
 		}
-		goto tr416
+		goto tr417
 	st753:
 		if p++; p == pe {
 			goto _test_eof753
@@ -16921,7 +16940,7 @@ tr753:
 		case 116:
 			goto st754
 		}
-		goto tr416
+		goto tr417
 	st754:
 		if p++; p == pe {
 			goto _test_eof754
@@ -16933,7 +16952,7 @@ tr753:
 		case 104:
 			goto st755
 		}
-		goto tr416
+		goto tr417
 	st755:
 		if p++; p == pe {
 			goto _test_eof755
@@ -16945,7 +16964,7 @@ tr753:
 		case 101:
 			goto st756
 		}
-		goto tr416
+		goto tr417
 	st756:
 		if p++; p == pe {
 			goto _test_eof756
@@ -16957,7 +16976,7 @@ tr753:
 		case 110:
 			goto st757
 		}
-		goto tr416
+		goto tr417
 	st757:
 		if p++; p == pe {
 			goto _test_eof757
@@ -16969,7 +16988,7 @@ tr753:
 		case 116:
 			goto st758
 		}
-		goto tr416
+		goto tr417
 	st758:
 		if p++; p == pe {
 			goto _test_eof758
@@ -16981,7 +17000,7 @@ tr753:
 		case 105:
 			goto st759
 		}
-		goto tr416
+		goto tr417
 	st759:
 		if p++; p == pe {
 			goto _test_eof759
@@ -16993,7 +17012,7 @@ tr753:
 		case 99:
 			goto st760
 		}
-		goto tr416
+		goto tr417
 	st760:
 		if p++; p == pe {
 			goto _test_eof760
@@ -17005,7 +17024,7 @@ tr753:
 		case 97:
 			goto st761
 		}
-		goto tr416
+		goto tr417
 	st761:
 		if p++; p == pe {
 			goto _test_eof761
@@ -17017,7 +17036,7 @@ tr753:
 		case 116:
 			goto st762
 		}
-		goto tr416
+		goto tr417
 	st762:
 		if p++; p == pe {
 			goto _test_eof762
@@ -17029,7 +17048,7 @@ tr753:
 		case 101:
 			goto st763
 		}
-		goto tr416
+		goto tr417
 	st763:
 		if p++; p == pe {
 			goto _test_eof763
@@ -17037,20 +17056,20 @@ tr753:
 	st_case_763:
 		switch data[p] {
 		case 9:
-			goto tr999
+			goto tr1000
 		case 32:
-			goto tr999
-		case 58:
 			goto tr1000
+		case 58:
+			goto tr1001
 		}
-		goto tr416
+		goto tr417
 	st764:
 		if p++; p == pe {
 			goto _test_eof764
 		}
 	st_case_764:
 		if data[p] == 10 {
-			goto tr1001
+			goto tr1002
 		}
 		goto st0
 	st_out:
@@ -17845,7 +17864,7 @@ tr753:
 
 	{goto st273 }
 
-//line msg_parse.go:17840
+//line msg_parse.go:17859
 		}
 	}
 
diff --git a/sip/sip.rl b/sip/sip.rl
index 7e79b4d..1b2709e 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -548,7 +548,7 @@ Method          = token >mark %Method;
 SIPVersionNo    = digit+ @VersionMajor "." digit+ @VersionMinor;
 RequestURI      = ^SP+ >mark %RequestURI;
 StatusCode      = ( digit @StatusCode ) {3};
-ReasonPhrase    = reasonmc+ >start %ReasonPhrase;
+ReasonPhrase    = reasonmc* >start %ReasonPhrase;
 SIPVersion      = "SIP/" SIPVersionNo;
 Request         = Method SP RequestURI SP SIPVersion CRLF @goto_header;
 Response        = SIPVersion SP StatusCode SP ReasonPhrase CRLF @goto_header;
-- 
2.43.0


From 20ebaf02d131a10f9c5f566935e5e1cf09ab0e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 36/58] fix: display names and parameters were truncated at the
 first non-ASCII character

---
 sip/quote.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sip/quote.go b/sip/quote.go
index e8f6dab..631df35 100644
--- a/sip/quote.go
+++ b/sip/quote.go
@@ -16,6 +16,7 @@ package sip
 
 import (
 	"bytes"
+	"unicode/utf8"
 )
 
 // appendSanitized appends stripping all characters that don't match the predicate.
@@ -47,6 +48,15 @@ func appendQuoted(b *bytes.Buffer, s []byte) {
 func appendQuoteQuoted(b *bytes.Buffer, s []byte) {
 	b.WriteByte('"')
 	for i := 0; i < len(s); i++ {
+		if s[i] >= utf8.RuneSelf {
+			_, n := utf8.DecodeRune(s[i:])
+			if n == 1 {
+				break
+			}
+			b.Write(s[i : i+n])
+			i += n - 1
+			continue
+		}
 		if qdtextc(s[i]) {
 			if s[i] == '\r' {
 				if i+2 >= len(s) || s[i+1] != '\n' ||
-- 
2.43.0


From e7823f96a9bf1591a6ab57118cfb34ca53391a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:18 +0000
Subject: [PATCH 37/58] fix: parameters with spaces went out without their
 quotation marks

---
 sip/param.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sip/param.go b/sip/param.go
index 6cf5465..15eb168 100644
--- a/sip/param.go
+++ b/sip/param.go
@@ -49,6 +49,10 @@ func (p *Param) Append(b *bytes.Buffer) {
 	appendSanitized(b, []byte(p.Name), tokenc)
 	if p.Value != "" {
 		b.WriteByte('=')
-		appendQuoted(b, []byte(p.Value))
+		if strings.IndexByte(p.Value, ' ') >= 0 {
+			appendQuoteQuoted(b, []byte(p.Value)) // Unlike display names.
+		} else {
+			appendQuoted(b, []byte(p.Value))
+		}
 	}
 }
-- 
2.43.0


From b47e3ad3929a41091b3cc00ee266cc4bbc9e8718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:31 +0000
Subject: [PATCH 38/58] fix: messages whose payload starts with whitespace were
 dropped

---
 sip/msg_parse.go | 4991 +++++++++++++++++++++++-----------------------
 sip/sip.rl       |    2 +-
 2 files changed, 2493 insertions(+), 2500 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index 730def9..00b37cc 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -684,14 +684,14 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_280
 	case 281:
 		goto st_case_281
+	case 781:
+		goto st_case_781
 	case 282:
 		goto st_case_282
 	case 283:
 		goto st_case_283
 	case 284:
 		goto st_case_284
-	case 781:
-		goto st_case_781
 	case 285:
 		goto st_case_285
 	case 286:
@@ -1690,7 +1690,7 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 			goto tr0
 		}
 		goto st0
-tr417:
+tr418:
 //line sip.rl:171
 
 	p = ( mark) - 1
@@ -9852,49 +9852,110 @@ value=nil
 			goto _test_eof280
 		}
 	st_case_280:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
+		switch data[p] {
+		case 13:
+			goto st281
 		case 33:
-			goto tr415
+			goto tr416
 		case 37:
-			goto tr415
+			goto tr416
 		case 39:
-			goto tr415
+			goto tr416
 		case 126:
-			goto tr415
-		case 269:
-			goto st764
+			goto tr416
 		}
 		switch {
-		case _widec < 48:
+		case data[p] < 48:
 			switch {
-			case _widec > 43:
-				if 45 <= _widec && _widec <= 46 {
-					goto tr415
+			case data[p] > 43:
+				if 45 <= data[p] && data[p] <= 46 {
+					goto tr416
 				}
-			case _widec >= 42:
-				goto tr415
+			case data[p] >= 42:
+				goto tr416
 			}
-		case _widec > 57:
+		case data[p] > 57:
 			switch {
-			case _widec > 90:
-				if 95 <= _widec && _widec <= 122 {
-					goto tr415
+			case data[p] > 90:
+				if 95 <= data[p] && data[p] <= 122 {
+					goto tr416
 				}
-			case _widec >= 65:
-				goto tr415
+			case data[p] >= 65:
+				goto tr416
 			}
 		default:
-			goto tr415
+			goto tr416
+		}
+		goto st0
+	st281:
+		if p++; p == pe {
+			goto _test_eof281
+		}
+	st_case_281:
+		if data[p] == 10 {
+			goto tr417
+		}
+		goto st0
+tr561:
+//line sip.rl:257
+ {goto st280 } 
+	goto st781
+tr417:
+//line sip.rl:76
+
+	{p++; cs = 781; goto _out }
+
+	goto st781
+tr444:
+//line sip.rl:72
+
+	p--
+
+
+//line sip.rl:258
+ {goto st263 } 
+	goto st781
+tr543:
+//line sip.rl:72
+
+	p--
+
+
+//line sip.rl:256
+ {goto st34 } 
+	goto st781
+tr578:
+//line sip.rl:534
+value=nil
+//line sip.rl:72
+
+	p--
+
+
+//line sip.rl:252
+ {goto st256 } 
+	goto st781
+tr973:
+//line sip.rl:137
+
+	via = new(Via)
+
+//line sip.rl:72
+
+	p--
+
+
+//line sip.rl:259
+ {goto st103 } 
+	goto st781
+	st781:
+		if p++; p == pe {
+			goto _test_eof781
 		}
+	st_case_781:
+//line msg_parse.go:9948
 		goto st0
-tr415:
+tr416:
 //line sip.rl:80
 
 	mark = p
@@ -9904,435 +9965,435 @@ tr415:
 	p--
 
 
-	goto st281
-	st281:
+	goto st282
+	st282:
 		if p++; p == pe {
-			goto _test_eof281
+			goto _test_eof282
 		}
-	st_case_281:
-//line msg_parse.go:9905
+	st_case_282:
+//line msg_parse.go:9966
 		switch data[p] {
 		case 65:
-			goto st282
+			goto st283
 		case 66:
-			goto st363
-		case 67:
 			goto st364
+		case 67:
+			goto st365
 		case 68:
-			goto st459
+			goto st460
 		case 69:
-			goto st463
+			goto st464
 		case 70:
-			goto st489
+			goto st490
 		case 73:
-			goto st493
+			goto st494
 		case 75:
-			goto st504
-		case 76:
 			goto st505
+		case 76:
+			goto st506
 		case 77:
-			goto st512
+			goto st513
 		case 79:
-			goto st556
+			goto st557
 		case 80:
-			goto st568
+			goto st569
 		case 82:
-			goto st626
+			goto st627
 		case 83:
-			goto st686
+			goto st687
 		case 84:
-			goto st704
+			goto st705
 		case 85:
-			goto st714
+			goto st715
 		case 86:
-			goto st734
+			goto st735
 		case 87:
-			goto st742
+			goto st743
 		case 97:
-			goto st282
+			goto st283
 		case 98:
-			goto st363
-		case 99:
 			goto st364
+		case 99:
+			goto st365
 		case 100:
-			goto st459
+			goto st460
 		case 101:
-			goto st463
+			goto st464
 		case 102:
-			goto st489
+			goto st490
 		case 105:
-			goto st493
+			goto st494
 		case 107:
-			goto st504
-		case 108:
 			goto st505
+		case 108:
+			goto st506
 		case 109:
-			goto st512
+			goto st513
 		case 111:
-			goto st556
+			goto st557
 		case 112:
-			goto st568
+			goto st569
 		case 114:
-			goto st626
+			goto st627
 		case 115:
-			goto st686
+			goto st687
 		case 116:
-			goto st704
+			goto st705
 		case 117:
-			goto st714
+			goto st715
 		case 118:
-			goto st734
+			goto st735
 		case 119:
-			goto st742
+			goto st743
 		}
-		goto tr417
-	st282:
+		goto tr418
+	st283:
 		if p++; p == pe {
-			goto _test_eof282
+			goto _test_eof283
 		}
-	st_case_282:
+	st_case_283:
 		switch data[p] {
 		case 9:
-			goto tr436
+			goto tr437
 		case 32:
-			goto tr436
-		case 58:
 			goto tr437
+		case 58:
+			goto tr438
 		case 67:
-			goto st288
+			goto st289
 		case 76:
-			goto st317
+			goto st318
 		case 85:
-			goto st336
+			goto st337
 		case 99:
-			goto st288
+			goto st289
 		case 108:
-			goto st317
+			goto st318
 		case 117:
-			goto st336
+			goto st337
 		}
-		goto tr417
-tr436:
+		goto tr418
+tr437:
 //line sip.rl:451
 value=&msg.AcceptContact
-	goto st283
-tr451:
+	goto st284
+tr452:
 //line sip.rl:450
 value=&msg.Accept
-	goto st283
-tr470:
+	goto st284
+tr471:
 //line sip.rl:452
 value=&msg.AcceptEncoding
-	goto st283
-tr479:
+	goto st284
+tr480:
 //line sip.rl:453
 value=&msg.AcceptLanguage
-	goto st283
-tr490:
+	goto st284
+tr491:
 //line sip.rl:456
 value=&msg.AlertInfo
-	goto st283
-tr494:
+	goto st284
+tr495:
 //line sip.rl:454
 value=&msg.Allow
-	goto st283
-tr503:
+	goto st284
+tr504:
 //line sip.rl:455
 value=&msg.AllowEvents
-	goto st283
-tr523:
+	goto st284
+tr524:
 //line sip.rl:457
 value=&msg.AuthenticationInfo
-	goto st283
-tr533:
+	goto st284
+tr534:
 //line sip.rl:458
 value=&msg.Authorization
-	goto st283
-tr535:
+	goto st284
+tr536:
 //line sip.rl:475
 value=&msg.ReferredBy
-	goto st283
-tr565:
+	goto st284
+tr566:
 //line sip.rl:462
 value=&msg.CallInfo
-	goto st283
-tr598:
+	goto st284
+tr599:
 //line sip.rl:459
 value=&msg.ContentDisposition
-	goto st283
-tr607:
+	goto st284
+tr608:
 //line sip.rl:461
 value=&msg.ContentEncoding
-	goto st283
-tr617:
+	goto st284
+tr618:
 //line sip.rl:460
 value=&msg.ContentLanguage
-	goto st283
-tr652:
+	goto st284
+tr653:
 //line sip.rl:463
 value=&msg.Date
-	goto st283
-tr665:
+	goto st284
+tr666:
 //line sip.rl:464
 value=&msg.ErrorInfo
-	goto st283
-tr670:
+	goto st284
+tr671:
 //line sip.rl:465
 value=&msg.Event
-	goto st283
-tr699:
+	goto st284
+tr700:
 //line sip.rl:466
 value=&msg.InReplyTo
-	goto st283
-tr701:
+	goto st284
+tr702:
 //line sip.rl:480
 value=&msg.Supported
-	goto st283
-tr740:
+	goto st284
+tr741:
 //line sip.rl:468
 value=&msg.MIMEVersion
-	goto st283
-tr768:
+	goto st284
+tr769:
 //line sip.rl:469
 value=&msg.Organization
-	goto st283
-tr798:
+	goto st284
+tr799:
 //line sip.rl:470
 value=&msg.Priority
-	goto st283
-tr817:
+	goto st284
+tr818:
 //line sip.rl:471
 value=&msg.ProxyAuthenticate
-	goto st283
-tr827:
+	goto st284
+tr828:
 //line sip.rl:472
 value=&msg.ProxyAuthorization
-	goto st283
-tr835:
+	goto st284
+tr836:
 //line sip.rl:473
 value=&msg.ProxyRequire
-	goto st283
-tr837:
+	goto st284
+tr838:
 //line sip.rl:474
 value=&msg.ReferTo
-	goto st283
-tr887:
+	goto st284
+tr888:
 //line sip.rl:467
 value=&msg.ReplyTo
-	goto st283
-tr893:
+	goto st284
+tr894:
 //line sip.rl:476
 value=&msg.Require
-	goto st283
-tr903:
+	goto st284
+tr904:
 //line sip.rl:477
 value=&msg.RetryAfter
-	goto st283
-tr910:
+	goto st284
+tr911:
 //line sip.rl:479
 value=&msg.Subject
-	goto st283
-tr918:
+	goto st284
+tr919:
 //line sip.rl:478
 value=&msg.Server
-	goto st283
-tr942:
+	goto st284
+tr943:
 //line sip.rl:481
 value=&msg.Timestamp
-	goto st283
-tr944:
+	goto st284
+tr945:
 //line sip.rl:454
 value=&msg.Allow
 //line sip.rl:455
 value=&msg.AllowEvents
-	goto st283
-tr957:
+	goto st284
+tr958:
 //line sip.rl:482
 value=&msg.Unsupported
-	goto st283
-tr967:
+	goto st284
+tr968:
 //line sip.rl:483
 value=&msg.UserAgent
-	goto st283
-tr984:
+	goto st284
+tr985:
 //line sip.rl:484
 value=&msg.Warning
-	goto st283
-tr1000:
+	goto st284
+tr1001:
 //line sip.rl:485
 value=&msg.WWWAuthenticate
-	goto st283
-	st283:
+	goto st284
+	st284:
 		if p++; p == pe {
-			goto _test_eof283
+			goto _test_eof284
 		}
-	st_case_283:
-//line msg_parse.go:10162
+	st_case_284:
+//line msg_parse.go:10223
 		switch data[p] {
 		case 9:
-			goto st283
+			goto st284
 		case 32:
-			goto st283
-		case 58:
 			goto st284
+		case 58:
+			goto st285
 		}
 		goto st0
-tr437:
+tr438:
 //line sip.rl:451
 value=&msg.AcceptContact
-	goto st284
-tr453:
+	goto st285
+tr454:
 //line sip.rl:450
 value=&msg.Accept
-	goto st284
-tr471:
+	goto st285
+tr472:
 //line sip.rl:452
 value=&msg.AcceptEncoding
-	goto st284
-tr480:
+	goto st285
+tr481:
 //line sip.rl:453
 value=&msg.AcceptLanguage
-	goto st284
-tr491:
+	goto st285
+tr492:
 //line sip.rl:456
 value=&msg.AlertInfo
-	goto st284
-tr496:
+	goto st285
+tr497:
 //line sip.rl:454
 value=&msg.Allow
-	goto st284
-tr504:
+	goto st285
+tr505:
 //line sip.rl:455
 value=&msg.AllowEvents
-	goto st284
-tr524:
+	goto st285
+tr525:
 //line sip.rl:457
 value=&msg.AuthenticationInfo
-	goto st284
-tr534:
+	goto st285
+tr535:
 //line sip.rl:458
 value=&msg.Authorization
-	goto st284
-tr536:
+	goto st285
+tr537:
 //line sip.rl:475
 value=&msg.ReferredBy
-	goto st284
-tr566:
+	goto st285
+tr567:
 //line sip.rl:462
 value=&msg.CallInfo
-	goto st284
-tr599:
+	goto st285
+tr600:
 //line sip.rl:459
 value=&msg.ContentDisposition
-	goto st284
-tr608:
+	goto st285
+tr609:
 //line sip.rl:461
 value=&msg.ContentEncoding
-	goto st284
-tr618:
+	goto st285
+tr619:
 //line sip.rl:460
 value=&msg.ContentLanguage
-	goto st284
-tr653:
+	goto st285
+tr654:
 //line sip.rl:463
 value=&msg.Date
-	goto st284
-tr666:
+	goto st285
+tr667:
 //line sip.rl:464
 value=&msg.ErrorInfo
-	goto st284
-tr671:
+	goto st285
+tr672:
 //line sip.rl:465
 value=&msg.Event
-	goto st284
-tr700:
+	goto st285
+tr701:
 //line sip.rl:466
 value=&msg.InReplyTo
-	goto st284
-tr702:
+	goto st285
+tr703:
 //line sip.rl:480
 value=&msg.Supported
-	goto st284
-tr741:
+	goto st285
+tr742:
 //line sip.rl:468
 value=&msg.MIMEVersion
-	goto st284
-tr769:
+	goto st285
+tr770:
 //line sip.rl:469
 value=&msg.Organization
-	goto st284
-tr799:
+	goto st285
+tr800:
 //line sip.rl:470
 value=&msg.Priority
-	goto st284
-tr818:
+	goto st285
+tr819:
 //line sip.rl:471
 value=&msg.ProxyAuthenticate
-	goto st284
-tr828:
+	goto st285
+tr829:
 //line sip.rl:472
 value=&msg.ProxyAuthorization
-	goto st284
-tr836:
+	goto st285
+tr837:
 //line sip.rl:473
 value=&msg.ProxyRequire
-	goto st284
-tr838:
+	goto st285
+tr839:
 //line sip.rl:474
 value=&msg.ReferTo
-	goto st284
-tr888:
+	goto st285
+tr889:
 //line sip.rl:467
 value=&msg.ReplyTo
-	goto st284
-tr894:
+	goto st285
+tr895:
 //line sip.rl:476
 value=&msg.Require
-	goto st284
-tr904:
+	goto st285
+tr905:
 //line sip.rl:477
 value=&msg.RetryAfter
-	goto st284
-tr911:
+	goto st285
+tr912:
 //line sip.rl:479
 value=&msg.Subject
-	goto st284
-tr919:
+	goto st285
+tr920:
 //line sip.rl:478
 value=&msg.Server
-	goto st284
-tr943:
+	goto st285
+tr944:
 //line sip.rl:481
 value=&msg.Timestamp
-	goto st284
-tr945:
+	goto st285
+tr946:
 //line sip.rl:454
 value=&msg.Allow
 //line sip.rl:455
 value=&msg.AllowEvents
-	goto st284
-tr958:
+	goto st285
+tr959:
 //line sip.rl:482
 value=&msg.Unsupported
-	goto st284
-tr968:
+	goto st285
+tr969:
 //line sip.rl:483
 value=&msg.UserAgent
-	goto st284
-tr985:
+	goto st285
+tr986:
 //line sip.rl:484
 value=&msg.Warning
-	goto st284
-tr1001:
+	goto st285
+tr1002:
 //line sip.rl:485
 value=&msg.WWWAuthenticate
-	goto st284
-	st284:
+	goto st285
+	st285:
 		if p++; p == pe {
-			goto _test_eof284
+			goto _test_eof285
 		}
-	st_case_284:
-//line msg_parse.go:10327
+	st_case_285:
+//line msg_parse.go:10388
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -10342,89 +10403,21 @@ value=&msg.WWWAuthenticate
 		}
 		switch _widec {
 		case 9:
-			goto st284
+			goto st285
 		case 32:
-			goto st284
+			goto st285
 		case 269:
-			goto tr443
+			goto tr444
 		case 525:
-			goto st285
+			goto st286
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr443
+				goto tr444
 			}
 		default:
-			goto tr443
-		}
-		goto st0
-tr560:
-//line sip.rl:257
- {goto st280 } 
-	goto st781
-tr443:
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:258
- {goto st263 } 
-	goto st781
-tr542:
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:256
- {goto st34 } 
-	goto st781
-tr577:
-//line sip.rl:534
-value=nil
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:252
- {goto st256 } 
-	goto st781
-tr972:
-//line sip.rl:137
-
-	via = new(Via)
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:259
- {goto st103 } 
-	goto st781
-tr1002:
-//line sip.rl:76
-
-	{p++; cs = 781; goto _out }
-
-	goto st781
-	st781:
-		if p++; p == pe {
-			goto _test_eof781
-		}
-	st_case_781:
-//line msg_parse.go:10411
-		goto st0
-	st285:
-		if p++; p == pe {
-			goto _test_eof285
-		}
-	st_case_285:
-		if data[p] == 10 {
-			goto st286
+			goto tr444
 		}
 		goto st0
 	st286:
@@ -10432,10 +10425,7 @@ tr1002:
 			goto _test_eof286
 		}
 	st_case_286:
-		switch data[p] {
-		case 9:
-			goto st287
-		case 32:
+		if data[p] == 10 {
 			goto st287
 		}
 		goto st0
@@ -10446,943 +10436,941 @@ tr1002:
 	st_case_287:
 		switch data[p] {
 		case 9:
-			goto st287
+			goto st288
 		case 32:
-			goto st287
+			goto st288
 		}
-		goto tr443
+		goto st0
 	st288:
 		if p++; p == pe {
 			goto _test_eof288
 		}
 	st_case_288:
 		switch data[p] {
-		case 67:
-			goto st289
-		case 99:
-			goto st289
+		case 9:
+			goto st288
+		case 32:
+			goto st288
 		}
-		goto tr417
+		goto tr444
 	st289:
 		if p++; p == pe {
 			goto _test_eof289
 		}
 	st_case_289:
 		switch data[p] {
-		case 69:
+		case 67:
 			goto st290
-		case 101:
+		case 99:
 			goto st290
 		}
-		goto tr417
+		goto tr418
 	st290:
 		if p++; p == pe {
 			goto _test_eof290
 		}
 	st_case_290:
 		switch data[p] {
-		case 80:
+		case 69:
 			goto st291
-		case 112:
+		case 101:
 			goto st291
 		}
-		goto tr417
+		goto tr418
 	st291:
 		if p++; p == pe {
 			goto _test_eof291
 		}
 	st_case_291:
 		switch data[p] {
-		case 84:
+		case 80:
 			goto st292
-		case 116:
+		case 112:
 			goto st292
 		}
-		goto tr417
+		goto tr418
 	st292:
 		if p++; p == pe {
 			goto _test_eof292
 		}
 	st_case_292:
 		switch data[p] {
-		case 9:
-			goto tr451
-		case 32:
-			goto tr451
-		case 45:
+		case 84:
+			goto st293
+		case 116:
 			goto st293
-		case 58:
-			goto tr453
 		}
-		goto tr417
+		goto tr418
 	st293:
 		if p++; p == pe {
 			goto _test_eof293
 		}
 	st_case_293:
 		switch data[p] {
-		case 67:
-			goto st294
-		case 69:
-			goto st301
-		case 76:
-			goto st309
-		case 99:
+		case 9:
+			goto tr452
+		case 32:
+			goto tr452
+		case 45:
 			goto st294
-		case 101:
-			goto st301
-		case 108:
-			goto st309
+		case 58:
+			goto tr454
 		}
-		goto tr417
+		goto tr418
 	st294:
 		if p++; p == pe {
 			goto _test_eof294
 		}
 	st_case_294:
 		switch data[p] {
-		case 79:
+		case 67:
 			goto st295
-		case 111:
+		case 69:
+			goto st302
+		case 76:
+			goto st310
+		case 99:
 			goto st295
+		case 101:
+			goto st302
+		case 108:
+			goto st310
 		}
-		goto tr417
+		goto tr418
 	st295:
 		if p++; p == pe {
 			goto _test_eof295
 		}
 	st_case_295:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st296
-		case 110:
+		case 111:
 			goto st296
 		}
-		goto tr417
+		goto tr418
 	st296:
 		if p++; p == pe {
 			goto _test_eof296
 		}
 	st_case_296:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st297
-		case 116:
+		case 110:
 			goto st297
 		}
-		goto tr417
+		goto tr418
 	st297:
 		if p++; p == pe {
 			goto _test_eof297
 		}
 	st_case_297:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st298
-		case 97:
+		case 116:
 			goto st298
 		}
-		goto tr417
+		goto tr418
 	st298:
 		if p++; p == pe {
 			goto _test_eof298
 		}
 	st_case_298:
 		switch data[p] {
-		case 67:
+		case 65:
 			goto st299
-		case 99:
+		case 97:
 			goto st299
 		}
-		goto tr417
+		goto tr418
 	st299:
 		if p++; p == pe {
 			goto _test_eof299
 		}
 	st_case_299:
 		switch data[p] {
-		case 84:
+		case 67:
 			goto st300
-		case 116:
+		case 99:
 			goto st300
 		}
-		goto tr417
+		goto tr418
 	st300:
 		if p++; p == pe {
 			goto _test_eof300
 		}
 	st_case_300:
 		switch data[p] {
-		case 9:
-			goto tr436
-		case 32:
-			goto tr436
-		case 58:
-			goto tr437
+		case 84:
+			goto st301
+		case 116:
+			goto st301
 		}
-		goto tr417
+		goto tr418
 	st301:
 		if p++; p == pe {
 			goto _test_eof301
 		}
 	st_case_301:
 		switch data[p] {
-		case 78:
-			goto st302
-		case 110:
-			goto st302
+		case 9:
+			goto tr437
+		case 32:
+			goto tr437
+		case 58:
+			goto tr438
 		}
-		goto tr417
+		goto tr418
 	st302:
 		if p++; p == pe {
 			goto _test_eof302
 		}
 	st_case_302:
 		switch data[p] {
-		case 67:
+		case 78:
 			goto st303
-		case 99:
+		case 110:
 			goto st303
 		}
-		goto tr417
+		goto tr418
 	st303:
 		if p++; p == pe {
 			goto _test_eof303
 		}
 	st_case_303:
 		switch data[p] {
-		case 79:
+		case 67:
 			goto st304
-		case 111:
+		case 99:
 			goto st304
 		}
-		goto tr417
+		goto tr418
 	st304:
 		if p++; p == pe {
 			goto _test_eof304
 		}
 	st_case_304:
 		switch data[p] {
-		case 68:
+		case 79:
 			goto st305
-		case 100:
+		case 111:
 			goto st305
 		}
-		goto tr417
+		goto tr418
 	st305:
 		if p++; p == pe {
 			goto _test_eof305
 		}
 	st_case_305:
 		switch data[p] {
-		case 73:
+		case 68:
 			goto st306
-		case 105:
+		case 100:
 			goto st306
 		}
-		goto tr417
+		goto tr418
 	st306:
 		if p++; p == pe {
 			goto _test_eof306
 		}
 	st_case_306:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st307
-		case 110:
+		case 105:
 			goto st307
 		}
-		goto tr417
+		goto tr418
 	st307:
 		if p++; p == pe {
 			goto _test_eof307
 		}
 	st_case_307:
 		switch data[p] {
-		case 71:
+		case 78:
 			goto st308
-		case 103:
+		case 110:
 			goto st308
 		}
-		goto tr417
+		goto tr418
 	st308:
 		if p++; p == pe {
 			goto _test_eof308
 		}
 	st_case_308:
 		switch data[p] {
-		case 9:
-			goto tr470
-		case 32:
-			goto tr470
-		case 58:
-			goto tr471
+		case 71:
+			goto st309
+		case 103:
+			goto st309
 		}
-		goto tr417
+		goto tr418
 	st309:
 		if p++; p == pe {
 			goto _test_eof309
 		}
 	st_case_309:
 		switch data[p] {
-		case 65:
-			goto st310
-		case 97:
-			goto st310
+		case 9:
+			goto tr471
+		case 32:
+			goto tr471
+		case 58:
+			goto tr472
 		}
-		goto tr417
+		goto tr418
 	st310:
 		if p++; p == pe {
 			goto _test_eof310
 		}
 	st_case_310:
 		switch data[p] {
-		case 78:
+		case 65:
 			goto st311
-		case 110:
+		case 97:
 			goto st311
 		}
-		goto tr417
+		goto tr418
 	st311:
 		if p++; p == pe {
 			goto _test_eof311
 		}
 	st_case_311:
 		switch data[p] {
-		case 71:
+		case 78:
 			goto st312
-		case 103:
+		case 110:
 			goto st312
 		}
-		goto tr417
+		goto tr418
 	st312:
 		if p++; p == pe {
 			goto _test_eof312
 		}
 	st_case_312:
 		switch data[p] {
-		case 85:
+		case 71:
 			goto st313
-		case 117:
+		case 103:
 			goto st313
 		}
-		goto tr417
+		goto tr418
 	st313:
 		if p++; p == pe {
 			goto _test_eof313
 		}
 	st_case_313:
 		switch data[p] {
-		case 65:
+		case 85:
 			goto st314
-		case 97:
+		case 117:
 			goto st314
 		}
-		goto tr417
+		goto tr418
 	st314:
 		if p++; p == pe {
 			goto _test_eof314
 		}
 	st_case_314:
 		switch data[p] {
-		case 71:
+		case 65:
 			goto st315
-		case 103:
+		case 97:
 			goto st315
 		}
-		goto tr417
+		goto tr418
 	st315:
 		if p++; p == pe {
 			goto _test_eof315
 		}
 	st_case_315:
 		switch data[p] {
-		case 69:
+		case 71:
 			goto st316
-		case 101:
+		case 103:
 			goto st316
 		}
-		goto tr417
+		goto tr418
 	st316:
 		if p++; p == pe {
 			goto _test_eof316
 		}
 	st_case_316:
 		switch data[p] {
-		case 9:
-			goto tr479
-		case 32:
-			goto tr479
-		case 58:
-			goto tr480
+		case 69:
+			goto st317
+		case 101:
+			goto st317
 		}
-		goto tr417
+		goto tr418
 	st317:
 		if p++; p == pe {
 			goto _test_eof317
 		}
 	st_case_317:
 		switch data[p] {
-		case 69:
-			goto st318
-		case 76:
-			goto st326
-		case 101:
-			goto st318
-		case 108:
-			goto st326
+		case 9:
+			goto tr480
+		case 32:
+			goto tr480
+		case 58:
+			goto tr481
 		}
-		goto tr417
+		goto tr418
 	st318:
 		if p++; p == pe {
 			goto _test_eof318
 		}
 	st_case_318:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st319
-		case 114:
+		case 76:
+			goto st327
+		case 101:
 			goto st319
+		case 108:
+			goto st327
 		}
-		goto tr417
+		goto tr418
 	st319:
 		if p++; p == pe {
 			goto _test_eof319
 		}
 	st_case_319:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st320
-		case 116:
+		case 114:
 			goto st320
 		}
-		goto tr417
+		goto tr418
 	st320:
 		if p++; p == pe {
 			goto _test_eof320
 		}
 	st_case_320:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st321
+		case 116:
 			goto st321
 		}
-		goto tr417
+		goto tr418
 	st321:
 		if p++; p == pe {
 			goto _test_eof321
 		}
 	st_case_321:
-		switch data[p] {
-		case 73:
-			goto st322
-		case 105:
+		if data[p] == 45 {
 			goto st322
 		}
-		goto tr417
+		goto tr418
 	st322:
 		if p++; p == pe {
 			goto _test_eof322
 		}
 	st_case_322:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st323
-		case 110:
+		case 105:
 			goto st323
 		}
-		goto tr417
+		goto tr418
 	st323:
 		if p++; p == pe {
 			goto _test_eof323
 		}
 	st_case_323:
 		switch data[p] {
-		case 70:
+		case 78:
 			goto st324
-		case 102:
+		case 110:
 			goto st324
 		}
-		goto tr417
+		goto tr418
 	st324:
 		if p++; p == pe {
 			goto _test_eof324
 		}
 	st_case_324:
 		switch data[p] {
-		case 79:
+		case 70:
 			goto st325
-		case 111:
+		case 102:
 			goto st325
 		}
-		goto tr417
+		goto tr418
 	st325:
 		if p++; p == pe {
 			goto _test_eof325
 		}
 	st_case_325:
 		switch data[p] {
-		case 9:
-			goto tr490
-		case 32:
-			goto tr490
-		case 58:
-			goto tr491
+		case 79:
+			goto st326
+		case 111:
+			goto st326
 		}
-		goto tr417
+		goto tr418
 	st326:
 		if p++; p == pe {
 			goto _test_eof326
 		}
 	st_case_326:
 		switch data[p] {
-		case 79:
-			goto st327
-		case 111:
-			goto st327
+		case 9:
+			goto tr491
+		case 32:
+			goto tr491
+		case 58:
+			goto tr492
 		}
-		goto tr417
+		goto tr418
 	st327:
 		if p++; p == pe {
 			goto _test_eof327
 		}
 	st_case_327:
 		switch data[p] {
-		case 87:
+		case 79:
 			goto st328
-		case 119:
+		case 111:
 			goto st328
 		}
-		goto tr417
+		goto tr418
 	st328:
 		if p++; p == pe {
 			goto _test_eof328
 		}
 	st_case_328:
 		switch data[p] {
-		case 9:
-			goto tr494
-		case 32:
-			goto tr494
-		case 45:
+		case 87:
+			goto st329
+		case 119:
 			goto st329
-		case 58:
-			goto tr496
 		}
-		goto tr417
+		goto tr418
 	st329:
 		if p++; p == pe {
 			goto _test_eof329
 		}
 	st_case_329:
 		switch data[p] {
-		case 69:
-			goto st330
-		case 101:
+		case 9:
+			goto tr495
+		case 32:
+			goto tr495
+		case 45:
 			goto st330
+		case 58:
+			goto tr497
 		}
-		goto tr417
+		goto tr418
 	st330:
 		if p++; p == pe {
 			goto _test_eof330
 		}
 	st_case_330:
 		switch data[p] {
-		case 86:
+		case 69:
 			goto st331
-		case 118:
+		case 101:
 			goto st331
 		}
-		goto tr417
+		goto tr418
 	st331:
 		if p++; p == pe {
 			goto _test_eof331
 		}
 	st_case_331:
 		switch data[p] {
-		case 69:
+		case 86:
 			goto st332
-		case 101:
+		case 118:
 			goto st332
 		}
-		goto tr417
+		goto tr418
 	st332:
 		if p++; p == pe {
 			goto _test_eof332
 		}
 	st_case_332:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st333
-		case 110:
+		case 101:
 			goto st333
 		}
-		goto tr417
+		goto tr418
 	st333:
 		if p++; p == pe {
 			goto _test_eof333
 		}
 	st_case_333:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st334
-		case 116:
+		case 110:
 			goto st334
 		}
-		goto tr417
+		goto tr418
 	st334:
 		if p++; p == pe {
 			goto _test_eof334
 		}
 	st_case_334:
 		switch data[p] {
-		case 83:
+		case 84:
 			goto st335
-		case 115:
+		case 116:
 			goto st335
 		}
-		goto tr417
+		goto tr418
 	st335:
 		if p++; p == pe {
 			goto _test_eof335
 		}
 	st_case_335:
 		switch data[p] {
-		case 9:
-			goto tr503
-		case 32:
-			goto tr503
-		case 58:
-			goto tr504
+		case 83:
+			goto st336
+		case 115:
+			goto st336
 		}
-		goto tr417
+		goto tr418
 	st336:
 		if p++; p == pe {
 			goto _test_eof336
 		}
 	st_case_336:
 		switch data[p] {
-		case 84:
-			goto st337
-		case 116:
-			goto st337
+		case 9:
+			goto tr504
+		case 32:
+			goto tr504
+		case 58:
+			goto tr505
 		}
-		goto tr417
+		goto tr418
 	st337:
 		if p++; p == pe {
 			goto _test_eof337
 		}
 	st_case_337:
 		switch data[p] {
-		case 72:
+		case 84:
 			goto st338
-		case 104:
+		case 116:
 			goto st338
 		}
-		goto tr417
+		goto tr418
 	st338:
 		if p++; p == pe {
 			goto _test_eof338
 		}
 	st_case_338:
 		switch data[p] {
-		case 69:
+		case 72:
 			goto st339
-		case 79:
-			goto st354
-		case 101:
+		case 104:
 			goto st339
-		case 111:
-			goto st354
 		}
-		goto tr417
+		goto tr418
 	st339:
 		if p++; p == pe {
 			goto _test_eof339
 		}
 	st_case_339:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st340
-		case 110:
+		case 79:
+			goto st355
+		case 101:
 			goto st340
+		case 111:
+			goto st355
 		}
-		goto tr417
+		goto tr418
 	st340:
 		if p++; p == pe {
 			goto _test_eof340
 		}
 	st_case_340:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st341
-		case 116:
+		case 110:
 			goto st341
 		}
-		goto tr417
+		goto tr418
 	st341:
 		if p++; p == pe {
 			goto _test_eof341
 		}
 	st_case_341:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st342
-		case 105:
+		case 116:
 			goto st342
 		}
-		goto tr417
+		goto tr418
 	st342:
 		if p++; p == pe {
 			goto _test_eof342
 		}
 	st_case_342:
 		switch data[p] {
-		case 67:
+		case 73:
 			goto st343
-		case 99:
+		case 105:
 			goto st343
 		}
-		goto tr417
+		goto tr418
 	st343:
 		if p++; p == pe {
 			goto _test_eof343
 		}
 	st_case_343:
 		switch data[p] {
-		case 65:
+		case 67:
 			goto st344
-		case 97:
+		case 99:
 			goto st344
 		}
-		goto tr417
+		goto tr418
 	st344:
 		if p++; p == pe {
 			goto _test_eof344
 		}
 	st_case_344:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st345
-		case 116:
+		case 97:
 			goto st345
 		}
-		goto tr417
+		goto tr418
 	st345:
 		if p++; p == pe {
 			goto _test_eof345
 		}
 	st_case_345:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st346
-		case 105:
+		case 116:
 			goto st346
 		}
-		goto tr417
+		goto tr418
 	st346:
 		if p++; p == pe {
 			goto _test_eof346
 		}
 	st_case_346:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st347
-		case 111:
+		case 105:
 			goto st347
 		}
-		goto tr417
+		goto tr418
 	st347:
 		if p++; p == pe {
 			goto _test_eof347
 		}
 	st_case_347:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st348
-		case 110:
+		case 111:
 			goto st348
 		}
-		goto tr417
+		goto tr418
 	st348:
 		if p++; p == pe {
 			goto _test_eof348
 		}
 	st_case_348:
-		if data[p] == 45 {
+		switch data[p] {
+		case 78:
+			goto st349
+		case 110:
 			goto st349
 		}
-		goto tr417
+		goto tr418
 	st349:
 		if p++; p == pe {
 			goto _test_eof349
 		}
 	st_case_349:
-		switch data[p] {
-		case 73:
-			goto st350
-		case 105:
+		if data[p] == 45 {
 			goto st350
 		}
-		goto tr417
+		goto tr418
 	st350:
 		if p++; p == pe {
 			goto _test_eof350
 		}
 	st_case_350:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st351
-		case 110:
+		case 105:
 			goto st351
 		}
-		goto tr417
+		goto tr418
 	st351:
 		if p++; p == pe {
 			goto _test_eof351
 		}
 	st_case_351:
 		switch data[p] {
-		case 70:
+		case 78:
 			goto st352
-		case 102:
+		case 110:
 			goto st352
 		}
-		goto tr417
+		goto tr418
 	st352:
 		if p++; p == pe {
 			goto _test_eof352
 		}
 	st_case_352:
 		switch data[p] {
-		case 79:
+		case 70:
 			goto st353
-		case 111:
+		case 102:
 			goto st353
 		}
-		goto tr417
+		goto tr418
 	st353:
 		if p++; p == pe {
 			goto _test_eof353
 		}
 	st_case_353:
 		switch data[p] {
-		case 9:
-			goto tr523
-		case 32:
-			goto tr523
-		case 58:
-			goto tr524
+		case 79:
+			goto st354
+		case 111:
+			goto st354
 		}
-		goto tr417
+		goto tr418
 	st354:
 		if p++; p == pe {
 			goto _test_eof354
 		}
 	st_case_354:
 		switch data[p] {
-		case 82:
-			goto st355
-		case 114:
-			goto st355
+		case 9:
+			goto tr524
+		case 32:
+			goto tr524
+		case 58:
+			goto tr525
 		}
-		goto tr417
+		goto tr418
 	st355:
 		if p++; p == pe {
 			goto _test_eof355
 		}
 	st_case_355:
 		switch data[p] {
-		case 73:
+		case 82:
 			goto st356
-		case 105:
+		case 114:
 			goto st356
 		}
-		goto tr417
+		goto tr418
 	st356:
 		if p++; p == pe {
 			goto _test_eof356
 		}
 	st_case_356:
 		switch data[p] {
-		case 90:
+		case 73:
 			goto st357
-		case 122:
+		case 105:
 			goto st357
 		}
-		goto tr417
+		goto tr418
 	st357:
 		if p++; p == pe {
 			goto _test_eof357
 		}
 	st_case_357:
 		switch data[p] {
-		case 65:
+		case 90:
 			goto st358
-		case 97:
+		case 122:
 			goto st358
 		}
-		goto tr417
+		goto tr418
 	st358:
 		if p++; p == pe {
 			goto _test_eof358
 		}
 	st_case_358:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st359
-		case 116:
+		case 97:
 			goto st359
 		}
-		goto tr417
+		goto tr418
 	st359:
 		if p++; p == pe {
 			goto _test_eof359
 		}
 	st_case_359:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st360
-		case 105:
+		case 116:
 			goto st360
 		}
-		goto tr417
+		goto tr418
 	st360:
 		if p++; p == pe {
 			goto _test_eof360
 		}
 	st_case_360:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st361
-		case 111:
+		case 105:
 			goto st361
 		}
-		goto tr417
+		goto tr418
 	st361:
 		if p++; p == pe {
 			goto _test_eof361
 		}
 	st_case_361:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st362
-		case 110:
+		case 111:
 			goto st362
 		}
-		goto tr417
+		goto tr418
 	st362:
 		if p++; p == pe {
 			goto _test_eof362
 		}
 	st_case_362:
 		switch data[p] {
-		case 9:
-			goto tr533
-		case 32:
-			goto tr533
-		case 58:
-			goto tr534
+		case 78:
+			goto st363
+		case 110:
+			goto st363
 		}
-		goto tr417
+		goto tr418
 	st363:
 		if p++; p == pe {
 			goto _test_eof363
@@ -11390,13 +11378,13 @@ tr1002:
 	st_case_363:
 		switch data[p] {
 		case 9:
-			goto tr535
+			goto tr534
 		case 32:
-			goto tr535
+			goto tr534
 		case 58:
-			goto tr536
+			goto tr535
 		}
-		goto tr417
+		goto tr418
 	st364:
 		if p++; p == pe {
 			goto _test_eof364
@@ -11404,44 +11392,58 @@ tr1002:
 	st_case_364:
 		switch data[p] {
 		case 9:
-			goto st365
+			goto tr536
 		case 32:
-			goto st365
+			goto tr536
 		case 58:
+			goto tr537
+		}
+		goto tr418
+	st365:
+		if p++; p == pe {
+			goto _test_eof365
+		}
+	st_case_365:
+		switch data[p] {
+		case 9:
+			goto st366
+		case 32:
 			goto st366
+		case 58:
+			goto st367
 		case 65:
-			goto st370
+			goto st371
 		case 79:
-			goto st388
+			goto st389
 		case 83:
-			goto st445
+			goto st446
 		case 97:
-			goto st370
+			goto st371
 		case 111:
-			goto st388
+			goto st389
 		case 115:
-			goto st445
+			goto st446
 		}
-		goto tr417
-	st365:
+		goto tr418
+	st366:
 		if p++; p == pe {
-			goto _test_eof365
+			goto _test_eof366
 		}
-	st_case_365:
+	st_case_366:
 		switch data[p] {
 		case 9:
-			goto st365
+			goto st366
 		case 32:
-			goto st365
-		case 58:
 			goto st366
+		case 58:
+			goto st367
 		}
 		goto st0
-	st366:
+	st367:
 		if p++; p == pe {
-			goto _test_eof366
+			goto _test_eof367
 		}
-	st_case_366:
+	st_case_367:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11451,30 +11453,21 @@ tr1002:
 		}
 		switch _widec {
 		case 9:
-			goto st366
+			goto st367
 		case 32:
-			goto st366
+			goto st367
 		case 269:
-			goto tr542
+			goto tr543
 		case 525:
-			goto st367
+			goto st368
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr542
+				goto tr543
 			}
 		default:
-			goto tr542
-		}
-		goto st0
-	st367:
-		if p++; p == pe {
-			goto _test_eof367
-		}
-	st_case_367:
-		if data[p] == 10 {
-			goto st368
+			goto tr543
 		}
 		goto st0
 	st368:
@@ -11482,10 +11475,7 @@ tr1002:
 			goto _test_eof368
 		}
 	st_case_368:
-		switch data[p] {
-		case 9:
-			goto st369
-		case 32:
+		if data[p] == 10 {
 			goto st369
 		}
 		goto st0
@@ -11496,23 +11486,23 @@ tr1002:
 	st_case_369:
 		switch data[p] {
 		case 9:
-			goto st369
+			goto st370
 		case 32:
-			goto st369
+			goto st370
 		}
-		goto tr542
+		goto st0
 	st370:
 		if p++; p == pe {
 			goto _test_eof370
 		}
 	st_case_370:
 		switch data[p] {
-		case 76:
-			goto st371
-		case 108:
-			goto st371
+		case 9:
+			goto st370
+		case 32:
+			goto st370
 		}
-		goto tr417
+		goto tr543
 	st371:
 		if p++; p == pe {
 			goto _test_eof371
@@ -11524,58 +11514,56 @@ tr1002:
 		case 108:
 			goto st372
 		}
-		goto tr417
+		goto tr418
 	st372:
 		if p++; p == pe {
 			goto _test_eof372
 		}
 	st_case_372:
-		if data[p] == 45 {
+		switch data[p] {
+		case 76:
+			goto st373
+		case 108:
 			goto st373
 		}
-		goto tr417
+		goto tr418
 	st373:
 		if p++; p == pe {
 			goto _test_eof373
 		}
 	st_case_373:
-		switch data[p] {
-		case 73:
-			goto st374
-		case 105:
+		if data[p] == 45 {
 			goto st374
 		}
-		goto tr417
+		goto tr418
 	st374:
 		if p++; p == pe {
 			goto _test_eof374
 		}
 	st_case_374:
 		switch data[p] {
-		case 68:
+		case 73:
 			goto st375
-		case 78:
-			goto st385
-		case 100:
+		case 105:
 			goto st375
-		case 110:
-			goto st385
 		}
-		goto tr417
+		goto tr418
 	st375:
 		if p++; p == pe {
 			goto _test_eof375
 		}
 	st_case_375:
 		switch data[p] {
-		case 9:
+		case 68:
 			goto st376
-		case 32:
+		case 78:
+			goto st386
+		case 100:
 			goto st376
-		case 58:
-			goto st377
+		case 110:
+			goto st386
 		}
-		goto tr417
+		goto tr418
 	st376:
 		if p++; p == pe {
 			goto _test_eof376
@@ -11583,18 +11571,32 @@ tr1002:
 	st_case_376:
 		switch data[p] {
 		case 9:
-			goto st376
+			goto st377
 		case 32:
-			goto st376
-		case 58:
 			goto st377
+		case 58:
+			goto st378
 		}
-		goto st0
+		goto tr418
 	st377:
 		if p++; p == pe {
 			goto _test_eof377
 		}
 	st_case_377:
+		switch data[p] {
+		case 9:
+			goto st377
+		case 32:
+			goto st377
+		case 58:
+			goto st378
+		}
+		goto st0
+	st378:
+		if p++; p == pe {
+			goto _test_eof378
+		}
+	st_case_378:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11604,59 +11606,59 @@ tr1002:
 		}
 		switch _widec {
 		case 9:
-			goto st377
+			goto st378
 		case 32:
-			goto st377
+			goto st378
 		case 37:
-			goto tr554
+			goto tr555
 		case 60:
-			goto tr554
+			goto tr555
 		case 525:
-			goto st382
+			goto st383
 		}
 		switch {
 		case _widec < 62:
 			switch {
 			case _widec < 39:
 				if 33 <= _widec && _widec <= 34 {
-					goto tr554
+					goto tr555
 				}
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 58 {
-					goto tr554
+					goto tr555
 				}
 			default:
-				goto tr554
+				goto tr555
 			}
 		case _widec > 63:
 			switch {
 			case _widec < 95:
 				if 65 <= _widec && _widec <= 93 {
-					goto tr554
+					goto tr555
 				}
 			case _widec > 123:
 				if 125 <= _widec && _widec <= 126 {
-					goto tr554
+					goto tr555
 				}
 			default:
-				goto tr554
+				goto tr555
 			}
 		default:
-			goto tr554
+			goto tr555
 		}
 		goto st0
-tr554:
+tr555:
 //line sip.rl:80
 
 	mark = p
 
-	goto st378
-	st378:
+	goto st379
+	st379:
 		if p++; p == pe {
-			goto _test_eof378
+			goto _test_eof379
 		}
-	st_case_378:
-//line msg_parse.go:11651
+	st_case_379:
+//line msg_parse.go:11653
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11666,88 +11668,88 @@ tr554:
 		}
 		switch _widec {
 		case 37:
-			goto st378
+			goto st379
 		case 60:
-			goto st378
-		case 64:
 			goto st379
+		case 64:
+			goto st380
 		case 269:
-			goto tr558
+			goto tr559
 		}
 		switch {
 		case _widec < 45:
 			switch {
 			case _widec > 34:
 				if 39 <= _widec && _widec <= 43 {
-					goto st378
+					goto st379
 				}
 			case _widec >= 33:
-				goto st378
+				goto st379
 			}
 		case _widec > 58:
 			switch {
 			case _widec < 95:
 				if 62 <= _widec && _widec <= 93 {
-					goto st378
+					goto st379
 				}
 			case _widec > 123:
 				if 125 <= _widec && _widec <= 126 {
-					goto st378
+					goto st379
 				}
 			default:
-				goto st378
+				goto st379
 			}
 		default:
-			goto st378
+			goto st379
 		}
 		goto st0
-	st379:
+	st380:
 		if p++; p == pe {
-			goto _test_eof379
+			goto _test_eof380
 		}
-	st_case_379:
+	st_case_380:
 		switch data[p] {
 		case 37:
-			goto st380
+			goto st381
 		case 60:
-			goto st380
+			goto st381
 		}
 		switch {
 		case data[p] < 62:
 			switch {
 			case data[p] < 39:
 				if 33 <= data[p] && data[p] <= 34 {
-					goto st380
+					goto st381
 				}
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 58 {
-					goto st380
+					goto st381
 				}
 			default:
-				goto st380
+				goto st381
 			}
 		case data[p] > 63:
 			switch {
 			case data[p] < 95:
 				if 65 <= data[p] && data[p] <= 93 {
-					goto st380
+					goto st381
 				}
 			case data[p] > 123:
 				if 125 <= data[p] && data[p] <= 126 {
-					goto st380
+					goto st381
 				}
 			default:
-				goto st380
+				goto st381
 			}
 		default:
-			goto st380
+			goto st381
 		}
 		goto st0
-	st380:
+	st381:
 		if p++; p == pe {
-			goto _test_eof380
+			goto _test_eof381
 		}
-	st_case_380:
+	st_case_381:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11757,72 +11759,63 @@ tr554:
 		}
 		switch _widec {
 		case 37:
-			goto st380
+			goto st381
 		case 60:
-			goto st380
+			goto st381
 		case 269:
-			goto tr558
+			goto tr559
 		}
 		switch {
 		case _widec < 62:
 			switch {
 			case _widec < 39:
 				if 33 <= _widec && _widec <= 34 {
-					goto st380
+					goto st381
 				}
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 58 {
-					goto st380
+					goto st381
 				}
 			default:
-				goto st380
+				goto st381
 			}
 		case _widec > 63:
 			switch {
 			case _widec < 95:
 				if 65 <= _widec && _widec <= 93 {
-					goto st380
+					goto st381
 				}
 			case _widec > 123:
 				if 125 <= _widec && _widec <= 126 {
-					goto st380
+					goto st381
 				}
 			default:
-				goto st380
+				goto st381
 			}
 		default:
-			goto st380
+			goto st381
 		}
 		goto st0
-tr558:
+tr559:
 //line sip.rl:220
 
 	msg.CallID = string(data[mark:p])
 
-	goto st381
-tr644:
+	goto st382
+tr645:
 //line sip.rl:236
 
 	msg.CSeqMethod = string(data[mark:p])
 
-	goto st381
-	st381:
-		if p++; p == pe {
-			goto _test_eof381
-		}
-	st_case_381:
-//line msg_parse.go:11806
-		if data[p] == 10 {
-			goto tr560
-		}
-		goto st0
+	goto st382
 	st382:
 		if p++; p == pe {
 			goto _test_eof382
 		}
 	st_case_382:
+//line msg_parse.go:11808
 		if data[p] == 10 {
-			goto st383
+			goto tr561
 		}
 		goto st0
 	st383:
@@ -11830,10 +11823,7 @@ tr644:
 			goto _test_eof383
 		}
 	st_case_383:
-		switch data[p] {
-		case 9:
-			goto st384
-		case 32:
+		if data[p] == 10 {
 			goto st384
 		}
 		goto st0
@@ -11844,204 +11834,173 @@ tr644:
 	st_case_384:
 		switch data[p] {
 		case 9:
-			goto st384
+			goto st385
 		case 32:
-			goto st384
+			goto st385
+		}
+		goto st0
+	st385:
+		if p++; p == pe {
+			goto _test_eof385
+		}
+	st_case_385:
+		switch data[p] {
+		case 9:
+			goto st385
+		case 32:
+			goto st385
 		case 37:
-			goto tr554
+			goto tr555
 		case 60:
-			goto tr554
+			goto tr555
 		}
 		switch {
 		case data[p] < 62:
 			switch {
 			case data[p] < 39:
 				if 33 <= data[p] && data[p] <= 34 {
-					goto tr554
+					goto tr555
 				}
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 58 {
-					goto tr554
+					goto tr555
 				}
 			default:
-				goto tr554
+				goto tr555
 			}
 		case data[p] > 63:
 			switch {
 			case data[p] < 95:
 				if 65 <= data[p] && data[p] <= 93 {
-					goto tr554
+					goto tr555
 				}
 			case data[p] > 123:
 				if 125 <= data[p] && data[p] <= 126 {
-					goto tr554
+					goto tr555
 				}
 			default:
-				goto tr554
+				goto tr555
 			}
 		default:
-			goto tr554
+			goto tr555
 		}
 		goto st0
-	st385:
-		if p++; p == pe {
-			goto _test_eof385
-		}
-	st_case_385:
-		switch data[p] {
-		case 70:
-			goto st386
-		case 102:
-			goto st386
-		}
-		goto tr417
 	st386:
 		if p++; p == pe {
 			goto _test_eof386
 		}
 	st_case_386:
 		switch data[p] {
-		case 79:
+		case 70:
 			goto st387
-		case 111:
+		case 102:
 			goto st387
 		}
-		goto tr417
+		goto tr418
 	st387:
 		if p++; p == pe {
 			goto _test_eof387
 		}
 	st_case_387:
 		switch data[p] {
-		case 9:
-			goto tr565
-		case 32:
-			goto tr565
-		case 58:
-			goto tr566
+		case 79:
+			goto st388
+		case 111:
+			goto st388
 		}
-		goto tr417
+		goto tr418
 	st388:
 		if p++; p == pe {
 			goto _test_eof388
 		}
 	st_case_388:
 		switch data[p] {
-		case 78:
-			goto st389
-		case 110:
-			goto st389
+		case 9:
+			goto tr566
+		case 32:
+			goto tr566
+		case 58:
+			goto tr567
 		}
-		goto tr417
+		goto tr418
 	st389:
 		if p++; p == pe {
 			goto _test_eof389
 		}
 	st_case_389:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st390
-		case 116:
+		case 110:
 			goto st390
 		}
-		goto tr417
+		goto tr418
 	st390:
 		if p++; p == pe {
 			goto _test_eof390
 		}
 	st_case_390:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st391
-		case 69:
-			goto st399
-		case 97:
+		case 116:
 			goto st391
-		case 101:
-			goto st399
 		}
-		goto tr417
+		goto tr418
 	st391:
 		if p++; p == pe {
 			goto _test_eof391
 		}
 	st_case_391:
 		switch data[p] {
-		case 67:
+		case 65:
 			goto st392
-		case 99:
+		case 69:
+			goto st400
+		case 97:
 			goto st392
+		case 101:
+			goto st400
 		}
-		goto tr417
+		goto tr418
 	st392:
 		if p++; p == pe {
 			goto _test_eof392
 		}
 	st_case_392:
 		switch data[p] {
-		case 84:
+		case 67:
 			goto st393
-		case 116:
+		case 99:
 			goto st393
 		}
-		goto tr417
+		goto tr418
 	st393:
 		if p++; p == pe {
 			goto _test_eof393
 		}
 	st_case_393:
 		switch data[p] {
-		case 9:
-			goto tr573
-		case 32:
-			goto tr573
-		case 58:
-			goto tr574
+		case 84:
+			goto st394
+		case 116:
+			goto st394
 		}
-		goto tr417
-tr573:
-//line sip.rl:437
-addrp=lastAddr(&msg.Contact)
-	goto st394
-tr684:
-//line sip.rl:438
-addrp=lastAddr(&msg.From)
-	goto st394
-tr789:
-//line sip.rl:439
-addrp=lastAddr(&msg.PAssertedIdentity)
-	goto st394
-tr856:
-//line sip.rl:440
-addrp=lastAddr(&msg.RecordRoute)
-	goto st394
-tr880:
-//line sip.rl:441
-addrp=lastAddr(&msg.RemotePartyID)
-	goto st394
-tr908:
-//line sip.rl:442
-addrp=lastAddr(&msg.Route)
-	goto st394
-tr931:
-//line sip.rl:443
-addrp=lastAddr(&msg.To)
-	goto st394
+		goto tr418
 	st394:
 		if p++; p == pe {
 			goto _test_eof394
 		}
 	st_case_394:
-//line msg_parse.go:12027
 		switch data[p] {
 		case 9:
-			goto st394
+			goto tr574
 		case 32:
-			goto st394
+			goto tr574
 		case 58:
-			goto st395
+			goto tr575
 		}
-		goto st0
+		goto tr418
 tr574:
 //line sip.rl:437
 addrp=lastAddr(&msg.Contact)
@@ -12075,7 +12034,50 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof395
 		}
 	st_case_395:
-//line msg_parse.go:12070
+//line msg_parse.go:12029
+		switch data[p] {
+		case 9:
+			goto st395
+		case 32:
+			goto st395
+		case 58:
+			goto st396
+		}
+		goto st0
+tr575:
+//line sip.rl:437
+addrp=lastAddr(&msg.Contact)
+	goto st396
+tr686:
+//line sip.rl:438
+addrp=lastAddr(&msg.From)
+	goto st396
+tr791:
+//line sip.rl:439
+addrp=lastAddr(&msg.PAssertedIdentity)
+	goto st396
+tr858:
+//line sip.rl:440
+addrp=lastAddr(&msg.RecordRoute)
+	goto st396
+tr882:
+//line sip.rl:441
+addrp=lastAddr(&msg.RemotePartyID)
+	goto st396
+tr910:
+//line sip.rl:442
+addrp=lastAddr(&msg.Route)
+	goto st396
+tr933:
+//line sip.rl:443
+addrp=lastAddr(&msg.To)
+	goto st396
+	st396:
+		if p++; p == pe {
+			goto _test_eof396
+		}
+	st_case_396:
+//line msg_parse.go:12072
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12085,30 +12087,21 @@ addrp=lastAddr(&msg.To)
 		}
 		switch _widec {
 		case 9:
-			goto st395
+			goto st396
 		case 32:
-			goto st395
+			goto st396
 		case 269:
-			goto tr577
+			goto tr578
 		case 525:
-			goto st396
+			goto st397
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr577
+				goto tr578
 			}
 		default:
-			goto tr577
-		}
-		goto st0
-	st396:
-		if p++; p == pe {
-			goto _test_eof396
-		}
-	st_case_396:
-		if data[p] == 10 {
-			goto st397
+			goto tr578
 		}
 		goto st0
 	st397:
@@ -12116,10 +12109,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof397
 		}
 	st_case_397:
-		switch data[p] {
-		case 9:
-			goto st398
-		case 32:
+		if data[p] == 10 {
 			goto st398
 		}
 		goto st0
@@ -12130,464 +12120,462 @@ addrp=lastAddr(&msg.To)
 	st_case_398:
 		switch data[p] {
 		case 9:
-			goto st398
+			goto st399
 		case 32:
-			goto st398
+			goto st399
 		}
-		goto tr577
+		goto st0
 	st399:
 		if p++; p == pe {
 			goto _test_eof399
 		}
 	st_case_399:
 		switch data[p] {
-		case 78:
-			goto st400
-		case 110:
-			goto st400
+		case 9:
+			goto st399
+		case 32:
+			goto st399
 		}
-		goto tr417
+		goto tr578
 	st400:
 		if p++; p == pe {
 			goto _test_eof400
 		}
 	st_case_400:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st401
-		case 116:
+		case 110:
 			goto st401
 		}
-		goto tr417
+		goto tr418
 	st401:
 		if p++; p == pe {
 			goto _test_eof401
 		}
 	st_case_401:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st402
+		case 116:
 			goto st402
 		}
-		goto tr417
+		goto tr418
 	st402:
 		if p++; p == pe {
 			goto _test_eof402
 		}
 	st_case_402:
-		switch data[p] {
-		case 68:
-			goto st403
-		case 69:
-			goto st414
-		case 76:
-			goto st422
-		case 84:
-			goto st441
-		case 100:
+		if data[p] == 45 {
 			goto st403
-		case 101:
-			goto st414
-		case 108:
-			goto st422
-		case 116:
-			goto st441
 		}
-		goto tr417
+		goto tr418
 	st403:
 		if p++; p == pe {
 			goto _test_eof403
 		}
 	st_case_403:
 		switch data[p] {
-		case 73:
+		case 68:
 			goto st404
-		case 105:
+		case 69:
+			goto st415
+		case 76:
+			goto st423
+		case 84:
+			goto st442
+		case 100:
 			goto st404
+		case 101:
+			goto st415
+		case 108:
+			goto st423
+		case 116:
+			goto st442
 		}
-		goto tr417
+		goto tr418
 	st404:
 		if p++; p == pe {
 			goto _test_eof404
 		}
 	st_case_404:
 		switch data[p] {
-		case 83:
+		case 73:
 			goto st405
-		case 115:
+		case 105:
 			goto st405
 		}
-		goto tr417
+		goto tr418
 	st405:
 		if p++; p == pe {
 			goto _test_eof405
 		}
 	st_case_405:
 		switch data[p] {
-		case 80:
+		case 83:
 			goto st406
-		case 112:
+		case 115:
 			goto st406
 		}
-		goto tr417
+		goto tr418
 	st406:
 		if p++; p == pe {
 			goto _test_eof406
 		}
 	st_case_406:
 		switch data[p] {
-		case 79:
+		case 80:
 			goto st407
-		case 111:
+		case 112:
 			goto st407
 		}
-		goto tr417
+		goto tr418
 	st407:
 		if p++; p == pe {
 			goto _test_eof407
 		}
 	st_case_407:
 		switch data[p] {
-		case 83:
+		case 79:
 			goto st408
-		case 115:
+		case 111:
 			goto st408
 		}
-		goto tr417
+		goto tr418
 	st408:
 		if p++; p == pe {
 			goto _test_eof408
 		}
 	st_case_408:
 		switch data[p] {
-		case 73:
+		case 83:
 			goto st409
-		case 105:
+		case 115:
 			goto st409
 		}
-		goto tr417
+		goto tr418
 	st409:
 		if p++; p == pe {
 			goto _test_eof409
 		}
 	st_case_409:
 		switch data[p] {
-		case 84:
+		case 73:
 			goto st410
-		case 116:
+		case 105:
 			goto st410
 		}
-		goto tr417
+		goto tr418
 	st410:
 		if p++; p == pe {
 			goto _test_eof410
 		}
 	st_case_410:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st411
-		case 105:
+		case 116:
 			goto st411
 		}
-		goto tr417
+		goto tr418
 	st411:
 		if p++; p == pe {
 			goto _test_eof411
 		}
 	st_case_411:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st412
-		case 111:
+		case 105:
 			goto st412
 		}
-		goto tr417
+		goto tr418
 	st412:
 		if p++; p == pe {
 			goto _test_eof412
 		}
 	st_case_412:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st413
-		case 110:
+		case 111:
 			goto st413
 		}
-		goto tr417
+		goto tr418
 	st413:
 		if p++; p == pe {
 			goto _test_eof413
 		}
 	st_case_413:
 		switch data[p] {
-		case 9:
-			goto tr598
-		case 32:
-			goto tr598
-		case 58:
-			goto tr599
+		case 78:
+			goto st414
+		case 110:
+			goto st414
 		}
-		goto tr417
+		goto tr418
 	st414:
 		if p++; p == pe {
 			goto _test_eof414
 		}
 	st_case_414:
 		switch data[p] {
-		case 78:
-			goto st415
-		case 110:
-			goto st415
+		case 9:
+			goto tr599
+		case 32:
+			goto tr599
+		case 58:
+			goto tr600
 		}
-		goto tr417
+		goto tr418
 	st415:
 		if p++; p == pe {
 			goto _test_eof415
 		}
 	st_case_415:
 		switch data[p] {
-		case 67:
+		case 78:
 			goto st416
-		case 99:
+		case 110:
 			goto st416
 		}
-		goto tr417
+		goto tr418
 	st416:
 		if p++; p == pe {
 			goto _test_eof416
 		}
 	st_case_416:
 		switch data[p] {
-		case 79:
+		case 67:
 			goto st417
-		case 111:
+		case 99:
 			goto st417
 		}
-		goto tr417
+		goto tr418
 	st417:
 		if p++; p == pe {
 			goto _test_eof417
 		}
 	st_case_417:
 		switch data[p] {
-		case 68:
+		case 79:
 			goto st418
-		case 100:
+		case 111:
 			goto st418
 		}
-		goto tr417
+		goto tr418
 	st418:
 		if p++; p == pe {
 			goto _test_eof418
 		}
 	st_case_418:
 		switch data[p] {
-		case 73:
+		case 68:
 			goto st419
-		case 105:
+		case 100:
 			goto st419
 		}
-		goto tr417
+		goto tr418
 	st419:
 		if p++; p == pe {
 			goto _test_eof419
 		}
 	st_case_419:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st420
-		case 110:
+		case 105:
 			goto st420
 		}
-		goto tr417
+		goto tr418
 	st420:
 		if p++; p == pe {
 			goto _test_eof420
 		}
 	st_case_420:
 		switch data[p] {
-		case 71:
+		case 78:
 			goto st421
-		case 103:
+		case 110:
 			goto st421
 		}
-		goto tr417
+		goto tr418
 	st421:
 		if p++; p == pe {
 			goto _test_eof421
 		}
 	st_case_421:
 		switch data[p] {
-		case 9:
-			goto tr607
-		case 32:
-			goto tr607
-		case 58:
-			goto tr608
+		case 71:
+			goto st422
+		case 103:
+			goto st422
 		}
-		goto tr417
+		goto tr418
 	st422:
 		if p++; p == pe {
 			goto _test_eof422
 		}
 	st_case_422:
 		switch data[p] {
-		case 65:
-			goto st423
-		case 69:
-			goto st430
-		case 97:
-			goto st423
-		case 101:
-			goto st430
+		case 9:
+			goto tr608
+		case 32:
+			goto tr608
+		case 58:
+			goto tr609
 		}
-		goto tr417
+		goto tr418
 	st423:
 		if p++; p == pe {
 			goto _test_eof423
 		}
 	st_case_423:
 		switch data[p] {
-		case 78:
+		case 65:
 			goto st424
-		case 110:
+		case 69:
+			goto st431
+		case 97:
 			goto st424
+		case 101:
+			goto st431
 		}
-		goto tr417
+		goto tr418
 	st424:
 		if p++; p == pe {
 			goto _test_eof424
 		}
 	st_case_424:
 		switch data[p] {
-		case 71:
+		case 78:
 			goto st425
-		case 103:
+		case 110:
 			goto st425
 		}
-		goto tr417
+		goto tr418
 	st425:
 		if p++; p == pe {
 			goto _test_eof425
 		}
 	st_case_425:
 		switch data[p] {
-		case 85:
+		case 71:
 			goto st426
-		case 117:
+		case 103:
 			goto st426
 		}
-		goto tr417
+		goto tr418
 	st426:
 		if p++; p == pe {
 			goto _test_eof426
 		}
 	st_case_426:
 		switch data[p] {
-		case 65:
+		case 85:
 			goto st427
-		case 97:
+		case 117:
 			goto st427
 		}
-		goto tr417
+		goto tr418
 	st427:
 		if p++; p == pe {
 			goto _test_eof427
 		}
 	st_case_427:
 		switch data[p] {
-		case 71:
+		case 65:
 			goto st428
-		case 103:
+		case 97:
 			goto st428
 		}
-		goto tr417
+		goto tr418
 	st428:
 		if p++; p == pe {
 			goto _test_eof428
 		}
 	st_case_428:
 		switch data[p] {
-		case 69:
+		case 71:
 			goto st429
-		case 101:
+		case 103:
 			goto st429
 		}
-		goto tr417
+		goto tr418
 	st429:
 		if p++; p == pe {
 			goto _test_eof429
 		}
 	st_case_429:
 		switch data[p] {
-		case 9:
-			goto tr617
-		case 32:
-			goto tr617
-		case 58:
-			goto tr618
+		case 69:
+			goto st430
+		case 101:
+			goto st430
 		}
-		goto tr417
+		goto tr418
 	st430:
 		if p++; p == pe {
 			goto _test_eof430
 		}
 	st_case_430:
 		switch data[p] {
-		case 78:
-			goto st431
-		case 110:
-			goto st431
+		case 9:
+			goto tr618
+		case 32:
+			goto tr618
+		case 58:
+			goto tr619
 		}
-		goto tr417
+		goto tr418
 	st431:
 		if p++; p == pe {
 			goto _test_eof431
 		}
 	st_case_431:
 		switch data[p] {
-		case 71:
+		case 78:
 			goto st432
-		case 103:
+		case 110:
 			goto st432
 		}
-		goto tr417
+		goto tr418
 	st432:
 		if p++; p == pe {
 			goto _test_eof432
 		}
 	st_case_432:
 		switch data[p] {
-		case 84:
+		case 71:
 			goto st433
-		case 116:
+		case 103:
 			goto st433
 		}
-		goto tr417
+		goto tr418
 	st433:
 		if p++; p == pe {
 			goto _test_eof433
 		}
 	st_case_433:
 		switch data[p] {
-		case 72:
+		case 84:
 			goto st434
-		case 104:
+		case 116:
 			goto st434
 		}
-		goto tr417
+		goto tr418
 	st434:
 		if p++; p == pe {
 			goto _test_eof434
 		}
 	st_case_434:
 		switch data[p] {
-		case 9:
+		case 72:
 			goto st435
-		case 32:
+		case 104:
 			goto st435
-		case 58:
-			goto st436
 		}
-		goto tr417
+		goto tr418
 	st435:
 		if p++; p == pe {
 			goto _test_eof435
@@ -12595,18 +12583,32 @@ addrp=lastAddr(&msg.To)
 	st_case_435:
 		switch data[p] {
 		case 9:
-			goto st435
+			goto st436
 		case 32:
-			goto st435
-		case 58:
 			goto st436
+		case 58:
+			goto st437
 		}
-		goto st0
+		goto tr418
 	st436:
 		if p++; p == pe {
 			goto _test_eof436
 		}
 	st_case_436:
+		switch data[p] {
+		case 9:
+			goto st436
+		case 32:
+			goto st436
+		case 58:
+			goto st437
+		}
+		goto st0
+	st437:
+		if p++; p == pe {
+			goto _test_eof437
+		}
+	st_case_437:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12616,36 +12618,36 @@ addrp=lastAddr(&msg.To)
 		}
 		switch _widec {
 		case 9:
-			goto st436
+			goto st437
 		case 32:
-			goto st436
+			goto st437
 		case 525:
-			goto st438
+			goto st439
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr625
+			goto tr626
 		}
 		goto st0
-tr625:
+tr626:
 //line sip.rl:493
 clen=0
 //line sip.rl:224
 
 	clen = clen * 10 + (int(data[p]) - 0x30)
 
-	goto st437
-tr627:
+	goto st438
+tr628:
 //line sip.rl:224
 
 	clen = clen * 10 + (int(data[p]) - 0x30)
 
-	goto st437
-	st437:
+	goto st438
+	st438:
 		if p++; p == pe {
-			goto _test_eof437
+			goto _test_eof438
 		}
-	st_case_437:
-//line msg_parse.go:12640
+	st_case_438:
+//line msg_parse.go:12642
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12654,30 +12656,18 @@ tr627:
 			}
 		}
 		if _widec == 269 {
-			goto st381
+			goto st382
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr627
-		}
-		goto st0
-	st438:
-		if p++; p == pe {
-			goto _test_eof438
-		}
-	st_case_438:
-		if data[p] == 10 {
-			goto st439
+			goto tr628
 		}
 		goto st0
 	st439:
 		if p++; p == pe {
 			goto _test_eof439
 		}
-	st_case_439:
-		switch data[p] {
-		case 9:
-			goto st440
-		case 32:
+	st_case_439:
+		if data[p] == 10 {
 			goto st440
 		}
 		goto st0
@@ -12688,12 +12678,9 @@ tr627:
 	st_case_440:
 		switch data[p] {
 		case 9:
-			goto st440
+			goto st441
 		case 32:
-			goto st440
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr625
+			goto st441
 		}
 		goto st0
 	st441:
@@ -12702,88 +12689,89 @@ tr627:
 		}
 	st_case_441:
 		switch data[p] {
-		case 89:
-			goto st442
-		case 121:
-			goto st442
+		case 9:
+			goto st441
+		case 32:
+			goto st441
 		}
-		goto tr417
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr626
+		}
+		goto st0
 	st442:
 		if p++; p == pe {
 			goto _test_eof442
 		}
 	st_case_442:
 		switch data[p] {
-		case 80:
+		case 89:
 			goto st443
-		case 112:
+		case 121:
 			goto st443
 		}
-		goto tr417
+		goto tr418
 	st443:
 		if p++; p == pe {
 			goto _test_eof443
 		}
 	st_case_443:
 		switch data[p] {
-		case 69:
+		case 80:
 			goto st444
-		case 101:
+		case 112:
 			goto st444
 		}
-		goto tr417
+		goto tr418
 	st444:
 		if p++; p == pe {
 			goto _test_eof444
 		}
 	st_case_444:
 		switch data[p] {
-		case 9:
-			goto st365
-		case 32:
-			goto st365
-		case 58:
-			goto st366
+		case 69:
+			goto st445
+		case 101:
+			goto st445
 		}
-		goto tr417
+		goto tr418
 	st445:
 		if p++; p == pe {
 			goto _test_eof445
 		}
 	st_case_445:
 		switch data[p] {
-		case 69:
-			goto st446
-		case 101:
-			goto st446
+		case 9:
+			goto st366
+		case 32:
+			goto st366
+		case 58:
+			goto st367
 		}
-		goto tr417
+		goto tr418
 	st446:
 		if p++; p == pe {
 			goto _test_eof446
 		}
 	st_case_446:
 		switch data[p] {
-		case 81:
+		case 69:
 			goto st447
-		case 113:
+		case 101:
 			goto st447
 		}
-		goto tr417
+		goto tr418
 	st447:
 		if p++; p == pe {
 			goto _test_eof447
 		}
 	st_case_447:
 		switch data[p] {
-		case 9:
+		case 81:
 			goto st448
-		case 32:
+		case 113:
 			goto st448
-		case 58:
-			goto st449
 		}
-		goto tr417
+		goto tr418
 	st448:
 		if p++; p == pe {
 			goto _test_eof448
@@ -12791,18 +12779,32 @@ tr627:
 	st_case_448:
 		switch data[p] {
 		case 9:
-			goto st448
+			goto st449
 		case 32:
-			goto st448
-		case 58:
 			goto st449
+		case 58:
+			goto st450
 		}
-		goto st0
+		goto tr418
 	st449:
 		if p++; p == pe {
 			goto _test_eof449
 		}
 	st_case_449:
+		switch data[p] {
+		case 9:
+			goto st449
+		case 32:
+			goto st449
+		case 58:
+			goto st450
+		}
+		goto st0
+	st450:
+		if p++; p == pe {
+			goto _test_eof450
+		}
+	st_case_450:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12812,28 +12814,28 @@ tr627:
 		}
 		switch _widec {
 		case 9:
-			goto st449
+			goto st450
 		case 32:
-			goto st449
+			goto st450
 		case 525:
-			goto st456
+			goto st457
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr638
+			goto tr639
 		}
 		goto st0
-tr638:
+tr639:
 //line sip.rl:232
 
 	msg.CSeq = msg.CSeq * 10 + (int(data[p]) - 0x30)
 
-	goto st450
-	st450:
+	goto st451
+	st451:
 		if p++; p == pe {
-			goto _test_eof450
+			goto _test_eof451
 		}
-	st_case_450:
-//line msg_parse.go:12828
+	st_case_451:
+//line msg_parse.go:12830
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12843,21 +12845,21 @@ tr638:
 		}
 		switch _widec {
 		case 9:
-			goto st451
+			goto st452
 		case 32:
-			goto st451
+			goto st452
 		case 525:
-			goto st453
+			goto st454
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr638
+			goto tr639
 		}
 		goto st0
-	st451:
+	st452:
 		if p++; p == pe {
-			goto _test_eof451
+			goto _test_eof452
 		}
-	st_case_451:
+	st_case_452:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12867,55 +12869,55 @@ tr638:
 		}
 		switch _widec {
 		case 9:
-			goto st451
+			goto st452
 		case 32:
-			goto st451
+			goto st452
 		case 33:
-			goto tr642
+			goto tr643
 		case 37:
-			goto tr642
+			goto tr643
 		case 39:
-			goto tr642
+			goto tr643
 		case 126:
-			goto tr642
+			goto tr643
 		case 525:
-			goto st453
+			goto st454
 		}
 		switch {
 		case _widec < 48:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto tr642
+					goto tr643
 				}
 			case _widec >= 42:
-				goto tr642
+				goto tr643
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr642
+					goto tr643
 				}
 			case _widec >= 65:
-				goto tr642
+				goto tr643
 			}
 		default:
-			goto tr642
+			goto tr643
 		}
 		goto st0
-tr642:
+tr643:
 //line sip.rl:80
 
 	mark = p
 
-	goto st452
-	st452:
+	goto st453
+	st453:
 		if p++; p == pe {
-			goto _test_eof452
+			goto _test_eof453
 		}
-	st_case_452:
-//line msg_parse.go:12910
+	st_case_453:
+//line msg_parse.go:12912
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12925,109 +12927,100 @@ tr642:
 		}
 		switch _widec {
 		case 33:
-			goto st452
+			goto st453
 		case 37:
-			goto st452
+			goto st453
 		case 39:
-			goto st452
+			goto st453
 		case 126:
-			goto st452
+			goto st453
 		case 269:
-			goto tr644
+			goto tr645
 		}
 		switch {
 		case _widec < 48:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto st452
+					goto st453
 				}
 			case _widec >= 42:
-				goto st452
+				goto st453
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto st452
+					goto st453
 				}
 			case _widec >= 65:
-				goto st452
+				goto st453
 			}
 		default:
-			goto st452
+			goto st453
 		}
 		goto st0
-	st453:
+	st454:
 		if p++; p == pe {
-			goto _test_eof453
+			goto _test_eof454
 		}
-	st_case_453:
+	st_case_454:
 		if data[p] == 10 {
-			goto st454
+			goto st455
 		}
 		goto st0
-	st454:
+	st455:
 		if p++; p == pe {
-			goto _test_eof454
+			goto _test_eof455
 		}
-	st_case_454:
+	st_case_455:
 		switch data[p] {
 		case 9:
-			goto st455
+			goto st456
 		case 32:
-			goto st455
+			goto st456
 		}
 		goto st0
-	st455:
+	st456:
 		if p++; p == pe {
-			goto _test_eof455
+			goto _test_eof456
 		}
-	st_case_455:
+	st_case_456:
 		switch data[p] {
 		case 9:
-			goto st455
+			goto st456
 		case 32:
-			goto st455
+			goto st456
 		case 33:
-			goto tr642
+			goto tr643
 		case 37:
-			goto tr642
+			goto tr643
 		case 39:
-			goto tr642
+			goto tr643
 		case 126:
-			goto tr642
+			goto tr643
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr642
+					goto tr643
 				}
 			case data[p] >= 42:
-				goto tr642
+				goto tr643
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr642
+					goto tr643
 				}
 			case data[p] >= 65:
-				goto tr642
+				goto tr643
 			}
 		default:
-			goto tr642
-		}
-		goto st0
-	st456:
-		if p++; p == pe {
-			goto _test_eof456
-		}
-	st_case_456:
-		if data[p] == 10 {
-			goto st457
+			goto tr643
 		}
 		goto st0
 	st457:
@@ -13035,10 +13028,7 @@ tr642:
 			goto _test_eof457
 		}
 	st_case_457:
-		switch data[p] {
-		case 9:
-			goto st458
-		case 32:
+		if data[p] == 10 {
 			goto st458
 		}
 		goto st0
@@ -13049,12 +13039,9 @@ tr642:
 	st_case_458:
 		switch data[p] {
 		case 9:
-			goto st458
+			goto st459
 		case 32:
-			goto st458
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr638
+			goto st459
 		}
 		goto st0
 	st459:
@@ -13063,50 +13050,51 @@ tr642:
 		}
 	st_case_459:
 		switch data[p] {
-		case 65:
-			goto st460
-		case 97:
-			goto st460
+		case 9:
+			goto st459
+		case 32:
+			goto st459
 		}
-		goto tr417
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr639
+		}
+		goto st0
 	st460:
 		if p++; p == pe {
 			goto _test_eof460
 		}
 	st_case_460:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st461
-		case 116:
+		case 97:
 			goto st461
 		}
-		goto tr417
+		goto tr418
 	st461:
 		if p++; p == pe {
 			goto _test_eof461
 		}
 	st_case_461:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st462
-		case 101:
+		case 116:
 			goto st462
 		}
-		goto tr417
+		goto tr418
 	st462:
 		if p++; p == pe {
 			goto _test_eof462
 		}
 	st_case_462:
 		switch data[p] {
-		case 9:
-			goto tr652
-		case 32:
-			goto tr652
-		case 58:
-			goto tr653
+		case 69:
+			goto st463
+		case 101:
+			goto st463
 		}
-		goto tr417
+		goto tr418
 	st463:
 		if p++; p == pe {
 			goto _test_eof463
@@ -13114,256 +13102,256 @@ tr642:
 	st_case_463:
 		switch data[p] {
 		case 9:
-			goto tr607
+			goto tr653
 		case 32:
-			goto tr607
+			goto tr653
 		case 58:
-			goto tr608
-		case 82:
-			goto st464
-		case 86:
-			goto st473
-		case 88:
-			goto st477
-		case 114:
-			goto st464
-		case 118:
-			goto st473
-		case 120:
-			goto st477
+			goto tr654
 		}
-		goto tr417
+		goto tr418
 	st464:
 		if p++; p == pe {
 			goto _test_eof464
 		}
 	st_case_464:
 		switch data[p] {
+		case 9:
+			goto tr608
+		case 32:
+			goto tr608
+		case 58:
+			goto tr609
 		case 82:
 			goto st465
+		case 86:
+			goto st474
+		case 88:
+			goto st478
 		case 114:
 			goto st465
+		case 118:
+			goto st474
+		case 120:
+			goto st478
 		}
-		goto tr417
+		goto tr418
 	st465:
 		if p++; p == pe {
 			goto _test_eof465
 		}
 	st_case_465:
 		switch data[p] {
-		case 79:
+		case 82:
 			goto st466
-		case 111:
+		case 114:
 			goto st466
 		}
-		goto tr417
+		goto tr418
 	st466:
 		if p++; p == pe {
 			goto _test_eof466
 		}
 	st_case_466:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st467
-		case 114:
+		case 111:
 			goto st467
 		}
-		goto tr417
+		goto tr418
 	st467:
 		if p++; p == pe {
 			goto _test_eof467
 		}
 	st_case_467:
-		if data[p] == 45 {
+		switch data[p] {
+		case 82:
+			goto st468
+		case 114:
 			goto st468
 		}
-		goto tr417
+		goto tr418
 	st468:
 		if p++; p == pe {
 			goto _test_eof468
 		}
 	st_case_468:
-		switch data[p] {
-		case 73:
-			goto st469
-		case 105:
+		if data[p] == 45 {
 			goto st469
 		}
-		goto tr417
+		goto tr418
 	st469:
 		if p++; p == pe {
 			goto _test_eof469
 		}
 	st_case_469:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st470
-		case 110:
+		case 105:
 			goto st470
 		}
-		goto tr417
+		goto tr418
 	st470:
 		if p++; p == pe {
 			goto _test_eof470
 		}
 	st_case_470:
 		switch data[p] {
-		case 70:
+		case 78:
 			goto st471
-		case 102:
+		case 110:
 			goto st471
 		}
-		goto tr417
+		goto tr418
 	st471:
 		if p++; p == pe {
 			goto _test_eof471
 		}
 	st_case_471:
 		switch data[p] {
-		case 79:
+		case 70:
 			goto st472
-		case 111:
+		case 102:
 			goto st472
 		}
-		goto tr417
+		goto tr418
 	st472:
 		if p++; p == pe {
 			goto _test_eof472
 		}
 	st_case_472:
 		switch data[p] {
-		case 9:
-			goto tr665
-		case 32:
-			goto tr665
-		case 58:
-			goto tr666
+		case 79:
+			goto st473
+		case 111:
+			goto st473
 		}
-		goto tr417
+		goto tr418
 	st473:
 		if p++; p == pe {
 			goto _test_eof473
 		}
 	st_case_473:
 		switch data[p] {
-		case 69:
-			goto st474
-		case 101:
-			goto st474
+		case 9:
+			goto tr666
+		case 32:
+			goto tr666
+		case 58:
+			goto tr667
 		}
-		goto tr417
+		goto tr418
 	st474:
 		if p++; p == pe {
 			goto _test_eof474
 		}
 	st_case_474:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st475
-		case 110:
+		case 101:
 			goto st475
 		}
-		goto tr417
+		goto tr418
 	st475:
 		if p++; p == pe {
 			goto _test_eof475
 		}
 	st_case_475:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st476
-		case 116:
+		case 110:
 			goto st476
 		}
-		goto tr417
+		goto tr418
 	st476:
 		if p++; p == pe {
 			goto _test_eof476
 		}
 	st_case_476:
 		switch data[p] {
-		case 9:
-			goto tr670
-		case 32:
-			goto tr670
-		case 58:
-			goto tr671
+		case 84:
+			goto st477
+		case 116:
+			goto st477
 		}
-		goto tr417
+		goto tr418
 	st477:
 		if p++; p == pe {
 			goto _test_eof477
 		}
 	st_case_477:
 		switch data[p] {
-		case 80:
-			goto st478
-		case 112:
-			goto st478
+		case 9:
+			goto tr671
+		case 32:
+			goto tr671
+		case 58:
+			goto tr672
 		}
-		goto tr417
+		goto tr418
 	st478:
 		if p++; p == pe {
 			goto _test_eof478
 		}
 	st_case_478:
 		switch data[p] {
-		case 73:
+		case 80:
 			goto st479
-		case 105:
+		case 112:
 			goto st479
 		}
-		goto tr417
+		goto tr418
 	st479:
 		if p++; p == pe {
 			goto _test_eof479
 		}
 	st_case_479:
 		switch data[p] {
-		case 82:
+		case 73:
 			goto st480
-		case 114:
+		case 105:
 			goto st480
 		}
-		goto tr417
+		goto tr418
 	st480:
 		if p++; p == pe {
 			goto _test_eof480
 		}
 	st_case_480:
 		switch data[p] {
-		case 69:
+		case 82:
 			goto st481
-		case 101:
+		case 114:
 			goto st481
 		}
-		goto tr417
+		goto tr418
 	st481:
 		if p++; p == pe {
 			goto _test_eof481
 		}
 	st_case_481:
 		switch data[p] {
-		case 83:
+		case 69:
 			goto st482
-		case 115:
+		case 101:
 			goto st482
 		}
-		goto tr417
+		goto tr418
 	st482:
 		if p++; p == pe {
 			goto _test_eof482
 		}
 	st_case_482:
 		switch data[p] {
-		case 9:
+		case 83:
 			goto st483
-		case 32:
+		case 115:
 			goto st483
-		case 58:
-			goto st484
 		}
-		goto tr417
+		goto tr418
 	st483:
 		if p++; p == pe {
 			goto _test_eof483
@@ -13371,18 +13359,32 @@ tr642:
 	st_case_483:
 		switch data[p] {
 		case 9:
-			goto st483
+			goto st484
 		case 32:
-			goto st483
-		case 58:
 			goto st484
+		case 58:
+			goto st485
 		}
-		goto st0
+		goto tr418
 	st484:
 		if p++; p == pe {
 			goto _test_eof484
 		}
 	st_case_484:
+		switch data[p] {
+		case 9:
+			goto st484
+		case 32:
+			goto st484
+		case 58:
+			goto st485
+		}
+		goto st0
+	st485:
+		if p++; p == pe {
+			goto _test_eof485
+		}
+	st_case_485:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13392,36 +13394,36 @@ tr642:
 		}
 		switch _widec {
 		case 9:
-			goto st484
+			goto st485
 		case 32:
-			goto st484
+			goto st485
 		case 525:
-			goto st486
+			goto st487
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr679
+			goto tr680
 		}
 		goto st0
-tr679:
+tr680:
 //line sip.rl:495
 msg.Expires=0
 //line sip.rl:240
 
 	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
 
-	goto st485
-tr681:
+	goto st486
+tr682:
 //line sip.rl:240
 
 	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
 
-	goto st485
-	st485:
+	goto st486
+	st486:
 		if p++; p == pe {
-			goto _test_eof485
+			goto _test_eof486
 		}
-	st_case_485:
-//line msg_parse.go:13416
+	st_case_486:
+//line msg_parse.go:13418
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13430,19 +13432,10 @@ tr681:
 			}
 		}
 		if _widec == 269 {
-			goto st381
+			goto st382
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr681
-		}
-		goto st0
-	st486:
-		if p++; p == pe {
-			goto _test_eof486
-		}
-	st_case_486:
-		if data[p] == 10 {
-			goto st487
+			goto tr682
 		}
 		goto st0
 	st487:
@@ -13450,10 +13443,7 @@ tr681:
 			goto _test_eof487
 		}
 	st_case_487:
-		switch data[p] {
-		case 9:
-			goto st488
-		case 32:
+		if data[p] == 10 {
 			goto st488
 		}
 		goto st0
@@ -13464,12 +13454,9 @@ tr681:
 	st_case_488:
 		switch data[p] {
 		case 9:
-			goto st488
+			goto st489
 		case 32:
-			goto st488
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr679
+			goto st489
 		}
 		goto st0
 	st489:
@@ -13479,55 +13466,56 @@ tr681:
 	st_case_489:
 		switch data[p] {
 		case 9:
-			goto tr684
+			goto st489
 		case 32:
-			goto tr684
-		case 58:
-			goto tr685
-		case 82:
-			goto st490
-		case 114:
-			goto st490
+			goto st489
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr680
 		}
-		goto tr417
+		goto st0
 	st490:
 		if p++; p == pe {
 			goto _test_eof490
 		}
 	st_case_490:
 		switch data[p] {
-		case 79:
+		case 9:
+			goto tr685
+		case 32:
+			goto tr685
+		case 58:
+			goto tr686
+		case 82:
 			goto st491
-		case 111:
+		case 114:
 			goto st491
 		}
-		goto tr417
+		goto tr418
 	st491:
 		if p++; p == pe {
 			goto _test_eof491
 		}
 	st_case_491:
 		switch data[p] {
-		case 77:
+		case 79:
 			goto st492
-		case 109:
+		case 111:
 			goto st492
 		}
-		goto tr417
+		goto tr418
 	st492:
 		if p++; p == pe {
 			goto _test_eof492
 		}
 	st_case_492:
 		switch data[p] {
-		case 9:
-			goto tr684
-		case 32:
-			goto tr684
-		case 58:
-			goto tr685
+		case 77:
+			goto st493
+		case 109:
+			goto st493
 		}
-		goto tr417
+		goto tr418
 	st493:
 		if p++; p == pe {
 			goto _test_eof493
@@ -13535,133 +13523,133 @@ tr681:
 	st_case_493:
 		switch data[p] {
 		case 9:
-			goto st376
+			goto tr685
 		case 32:
-			goto st376
+			goto tr685
 		case 58:
-			goto st377
-		case 78:
-			goto st494
-		case 110:
-			goto st494
+			goto tr686
 		}
-		goto tr417
+		goto tr418
 	st494:
 		if p++; p == pe {
 			goto _test_eof494
 		}
 	st_case_494:
-		if data[p] == 45 {
+		switch data[p] {
+		case 9:
+			goto st377
+		case 32:
+			goto st377
+		case 58:
+			goto st378
+		case 78:
+			goto st495
+		case 110:
 			goto st495
 		}
-		goto tr417
+		goto tr418
 	st495:
 		if p++; p == pe {
 			goto _test_eof495
 		}
 	st_case_495:
-		switch data[p] {
-		case 82:
-			goto st496
-		case 114:
+		if data[p] == 45 {
 			goto st496
 		}
-		goto tr417
+		goto tr418
 	st496:
 		if p++; p == pe {
 			goto _test_eof496
 		}
 	st_case_496:
 		switch data[p] {
-		case 69:
+		case 82:
 			goto st497
-		case 101:
+		case 114:
 			goto st497
 		}
-		goto tr417
+		goto tr418
 	st497:
 		if p++; p == pe {
 			goto _test_eof497
 		}
 	st_case_497:
 		switch data[p] {
-		case 80:
+		case 69:
 			goto st498
-		case 112:
+		case 101:
 			goto st498
 		}
-		goto tr417
+		goto tr418
 	st498:
 		if p++; p == pe {
 			goto _test_eof498
 		}
 	st_case_498:
 		switch data[p] {
-		case 76:
+		case 80:
 			goto st499
-		case 108:
+		case 112:
 			goto st499
 		}
-		goto tr417
+		goto tr418
 	st499:
 		if p++; p == pe {
 			goto _test_eof499
 		}
 	st_case_499:
 		switch data[p] {
-		case 89:
+		case 76:
 			goto st500
-		case 121:
+		case 108:
 			goto st500
 		}
-		goto tr417
+		goto tr418
 	st500:
 		if p++; p == pe {
 			goto _test_eof500
 		}
 	st_case_500:
-		if data[p] == 45 {
+		switch data[p] {
+		case 89:
+			goto st501
+		case 121:
 			goto st501
 		}
-		goto tr417
+		goto tr418
 	st501:
 		if p++; p == pe {
 			goto _test_eof501
 		}
 	st_case_501:
-		switch data[p] {
-		case 84:
-			goto st502
-		case 116:
+		if data[p] == 45 {
 			goto st502
 		}
-		goto tr417
+		goto tr418
 	st502:
 		if p++; p == pe {
 			goto _test_eof502
 		}
 	st_case_502:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st503
-		case 111:
+		case 116:
 			goto st503
 		}
-		goto tr417
+		goto tr418
 	st503:
 		if p++; p == pe {
 			goto _test_eof503
 		}
 	st_case_503:
 		switch data[p] {
-		case 9:
-			goto tr699
-		case 32:
-			goto tr699
-		case 58:
-			goto tr700
+		case 79:
+			goto st504
+		case 111:
+			goto st504
 		}
-		goto tr417
+		goto tr418
 	st504:
 		if p++; p == pe {
 			goto _test_eof504
@@ -13669,13 +13657,13 @@ tr681:
 	st_case_504:
 		switch data[p] {
 		case 9:
-			goto tr701
+			goto tr700
 		case 32:
-			goto tr701
+			goto tr700
 		case 58:
-			goto tr702
+			goto tr701
 		}
-		goto tr417
+		goto tr418
 	st505:
 		if p++; p == pe {
 			goto _test_eof505
@@ -13683,13 +13671,13 @@ tr681:
 	st_case_505:
 		switch data[p] {
 		case 9:
-			goto st506
+			goto tr702
 		case 32:
-			goto st506
+			goto tr702
 		case 58:
-			goto st507
+			goto tr703
 		}
-		goto tr417
+		goto tr418
 	st506:
 		if p++; p == pe {
 			goto _test_eof506
@@ -13697,18 +13685,32 @@ tr681:
 	st_case_506:
 		switch data[p] {
 		case 9:
-			goto st506
+			goto st507
 		case 32:
-			goto st506
-		case 58:
 			goto st507
+		case 58:
+			goto st508
 		}
-		goto st0
+		goto tr418
 	st507:
 		if p++; p == pe {
 			goto _test_eof507
 		}
 	st_case_507:
+		switch data[p] {
+		case 9:
+			goto st507
+		case 32:
+			goto st507
+		case 58:
+			goto st508
+		}
+		goto st0
+	st508:
+		if p++; p == pe {
+			goto _test_eof508
+		}
+	st_case_508:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13718,17 +13720,17 @@ tr681:
 		}
 		switch _widec {
 		case 9:
-			goto st507
+			goto st508
 		case 32:
-			goto st507
+			goto st508
 		case 525:
-			goto st509
+			goto st510
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr705
+			goto tr706
 		}
 		goto st0
-tr705:
+tr706:
 //line sip.rl:493
 clen=0
 //line sip.rl:224
@@ -13753,8 +13755,8 @@ msg.MinExpires=0
 
 	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
 
-	goto st508
-tr707:
+	goto st509
+tr708:
 //line sip.rl:224
 
 	clen = clen * 10 + (int(data[p]) - 0x30)
@@ -13771,13 +13773,13 @@ tr707:
 
 	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
 
-	goto st508
-	st508:
+	goto st509
+	st509:
 		if p++; p == pe {
-			goto _test_eof508
+			goto _test_eof509
 		}
-	st_case_508:
-//line msg_parse.go:13772
+	st_case_509:
+//line msg_parse.go:13774
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13786,19 +13788,10 @@ tr707:
 			}
 		}
 		if _widec == 269 {
-			goto st381
+			goto st382
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr707
-		}
-		goto st0
-	st509:
-		if p++; p == pe {
-			goto _test_eof509
-		}
-	st_case_509:
-		if data[p] == 10 {
-			goto st510
+			goto tr708
 		}
 		goto st0
 	st510:
@@ -13806,10 +13799,7 @@ tr707:
 			goto _test_eof510
 		}
 	st_case_510:
-		switch data[p] {
-		case 9:
-			goto st511
-		case 32:
+		if data[p] == 10 {
 			goto st511
 		}
 		goto st0
@@ -13820,12 +13810,9 @@ tr707:
 	st_case_511:
 		switch data[p] {
 		case 9:
-			goto st511
+			goto st512
 		case 32:
-			goto st511
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr705
+			goto st512
 		}
 		goto st0
 	st512:
@@ -13835,152 +13822,153 @@ tr707:
 	st_case_512:
 		switch data[p] {
 		case 9:
-			goto tr573
+			goto st512
 		case 32:
-			goto tr573
-		case 58:
-			goto tr574
-		case 65:
-			goto st513
-		case 73:
-			goto st530
-		case 97:
-			goto st513
-		case 105:
-			goto st530
+			goto st512
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr706
 		}
-		goto tr417
+		goto st0
 	st513:
 		if p++; p == pe {
 			goto _test_eof513
 		}
 	st_case_513:
 		switch data[p] {
-		case 88:
+		case 9:
+			goto tr574
+		case 32:
+			goto tr574
+		case 58:
+			goto tr575
+		case 65:
 			goto st514
-		case 120:
+		case 73:
+			goto st531
+		case 97:
 			goto st514
+		case 105:
+			goto st531
 		}
-		goto tr417
+		goto tr418
 	st514:
 		if p++; p == pe {
 			goto _test_eof514
 		}
 	st_case_514:
-		if data[p] == 45 {
+		switch data[p] {
+		case 88:
+			goto st515
+		case 120:
 			goto st515
 		}
-		goto tr417
+		goto tr418
 	st515:
 		if p++; p == pe {
 			goto _test_eof515
 		}
 	st_case_515:
-		switch data[p] {
-		case 70:
-			goto st516
-		case 102:
+		if data[p] == 45 {
 			goto st516
 		}
-		goto tr417
+		goto tr418
 	st516:
 		if p++; p == pe {
 			goto _test_eof516
 		}
 	st_case_516:
 		switch data[p] {
-		case 79:
+		case 70:
 			goto st517
-		case 111:
+		case 102:
 			goto st517
 		}
-		goto tr417
+		goto tr418
 	st517:
 		if p++; p == pe {
 			goto _test_eof517
 		}
 	st_case_517:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st518
-		case 114:
+		case 111:
 			goto st518
 		}
-		goto tr417
+		goto tr418
 	st518:
 		if p++; p == pe {
 			goto _test_eof518
 		}
 	st_case_518:
 		switch data[p] {
-		case 87:
+		case 82:
 			goto st519
-		case 119:
+		case 114:
 			goto st519
 		}
-		goto tr417
+		goto tr418
 	st519:
 		if p++; p == pe {
 			goto _test_eof519
 		}
 	st_case_519:
 		switch data[p] {
-		case 65:
+		case 87:
 			goto st520
-		case 97:
+		case 119:
 			goto st520
 		}
-		goto tr417
+		goto tr418
 	st520:
 		if p++; p == pe {
 			goto _test_eof520
 		}
 	st_case_520:
 		switch data[p] {
-		case 82:
+		case 65:
 			goto st521
-		case 114:
+		case 97:
 			goto st521
 		}
-		goto tr417
+		goto tr418
 	st521:
 		if p++; p == pe {
 			goto _test_eof521
 		}
 	st_case_521:
 		switch data[p] {
-		case 68:
+		case 82:
 			goto st522
-		case 100:
+		case 114:
 			goto st522
 		}
-		goto tr417
+		goto tr418
 	st522:
 		if p++; p == pe {
 			goto _test_eof522
 		}
 	st_case_522:
 		switch data[p] {
-		case 83:
+		case 68:
 			goto st523
-		case 115:
+		case 100:
 			goto st523
 		}
-		goto tr417
+		goto tr418
 	st523:
 		if p++; p == pe {
 			goto _test_eof523
 		}
 	st_case_523:
 		switch data[p] {
-		case 9:
+		case 83:
 			goto st524
-		case 32:
+		case 115:
 			goto st524
-		case 58:
-			goto st525
 		}
-		goto tr417
+		goto tr418
 	st524:
 		if p++; p == pe {
 			goto _test_eof524
@@ -13988,18 +13976,32 @@ tr707:
 	st_case_524:
 		switch data[p] {
 		case 9:
-			goto st524
+			goto st525
 		case 32:
-			goto st524
-		case 58:
 			goto st525
+		case 58:
+			goto st526
 		}
-		goto st0
+		goto tr418
 	st525:
 		if p++; p == pe {
 			goto _test_eof525
 		}
 	st_case_525:
+		switch data[p] {
+		case 9:
+			goto st525
+		case 32:
+			goto st525
+		case 58:
+			goto st526
+		}
+		goto st0
+	st526:
+		if p++; p == pe {
+			goto _test_eof526
+		}
+	st_case_526:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -14009,36 +14011,36 @@ tr707:
 		}
 		switch _widec {
 		case 9:
-			goto st525
+			goto st526
 		case 32:
-			goto st525
+			goto st526
 		case 525:
-			goto st527
+			goto st528
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr724
+			goto tr725
 		}
 		goto st0
-tr724:
+tr725:
 //line sip.rl:496
 msg.MaxForwards=0
 //line sip.rl:244
 
 	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
 
-	goto st526
-tr726:
+	goto st527
+tr727:
 //line sip.rl:244
 
 	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
 
-	goto st526
-	st526:
+	goto st527
+	st527:
 		if p++; p == pe {
-			goto _test_eof526
+			goto _test_eof527
 		}
-	st_case_526:
-//line msg_parse.go:14033
+	st_case_527:
+//line msg_parse.go:14035
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -14047,19 +14049,10 @@ tr726:
 			}
 		}
 		if _widec == 269 {
-			goto st381
+			goto st382
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr726
-		}
-		goto st0
-	st527:
-		if p++; p == pe {
-			goto _test_eof527
-		}
-	st_case_527:
-		if data[p] == 10 {
-			goto st528
+			goto tr727
 		}
 		goto st0
 	st528:
@@ -14067,10 +14060,7 @@ tr726:
 			goto _test_eof528
 		}
 	st_case_528:
-		switch data[p] {
-		case 9:
-			goto st529
-		case 32:
+		if data[p] == 10 {
 			goto st529
 		}
 		goto st0
@@ -14081,12 +14071,9 @@ tr726:
 	st_case_529:
 		switch data[p] {
 		case 9:
-			goto st529
+			goto st530
 		case 32:
-			goto st529
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr724
+			goto st530
 		}
 		goto st0
 	st530:
@@ -14095,242 +14082,243 @@ tr726:
 		}
 	st_case_530:
 		switch data[p] {
-		case 77:
-			goto st531
-		case 78:
-			goto st541
-		case 109:
-			goto st531
-		case 110:
-			goto st541
+		case 9:
+			goto st530
+		case 32:
+			goto st530
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr725
 		}
-		goto tr417
+		goto st0
 	st531:
 		if p++; p == pe {
 			goto _test_eof531
 		}
 	st_case_531:
 		switch data[p] {
-		case 69:
+		case 77:
 			goto st532
-		case 101:
+		case 78:
+			goto st542
+		case 109:
 			goto st532
+		case 110:
+			goto st542
 		}
-		goto tr417
+		goto tr418
 	st532:
 		if p++; p == pe {
 			goto _test_eof532
 		}
 	st_case_532:
-		if data[p] == 45 {
+		switch data[p] {
+		case 69:
+			goto st533
+		case 101:
 			goto st533
 		}
-		goto tr417
+		goto tr418
 	st533:
 		if p++; p == pe {
 			goto _test_eof533
 		}
 	st_case_533:
-		switch data[p] {
-		case 86:
-			goto st534
-		case 118:
+		if data[p] == 45 {
 			goto st534
 		}
-		goto tr417
+		goto tr418
 	st534:
 		if p++; p == pe {
 			goto _test_eof534
 		}
 	st_case_534:
 		switch data[p] {
-		case 69:
+		case 86:
 			goto st535
-		case 101:
+		case 118:
 			goto st535
 		}
-		goto tr417
+		goto tr418
 	st535:
 		if p++; p == pe {
 			goto _test_eof535
 		}
 	st_case_535:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st536
-		case 114:
+		case 101:
 			goto st536
 		}
-		goto tr417
+		goto tr418
 	st536:
 		if p++; p == pe {
 			goto _test_eof536
 		}
 	st_case_536:
 		switch data[p] {
-		case 83:
+		case 82:
 			goto st537
-		case 115:
+		case 114:
 			goto st537
 		}
-		goto tr417
+		goto tr418
 	st537:
 		if p++; p == pe {
 			goto _test_eof537
 		}
 	st_case_537:
 		switch data[p] {
-		case 73:
+		case 83:
 			goto st538
-		case 105:
+		case 115:
 			goto st538
 		}
-		goto tr417
+		goto tr418
 	st538:
 		if p++; p == pe {
 			goto _test_eof538
 		}
 	st_case_538:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st539
-		case 111:
+		case 105:
 			goto st539
 		}
-		goto tr417
+		goto tr418
 	st539:
 		if p++; p == pe {
 			goto _test_eof539
 		}
 	st_case_539:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st540
-		case 110:
+		case 111:
 			goto st540
 		}
-		goto tr417
+		goto tr418
 	st540:
 		if p++; p == pe {
 			goto _test_eof540
 		}
 	st_case_540:
 		switch data[p] {
-		case 9:
-			goto tr740
-		case 32:
-			goto tr740
-		case 58:
-			goto tr741
+		case 78:
+			goto st541
+		case 110:
+			goto st541
 		}
-		goto tr417
+		goto tr418
 	st541:
 		if p++; p == pe {
 			goto _test_eof541
 		}
 	st_case_541:
-		if data[p] == 45 {
-			goto st542
+		switch data[p] {
+		case 9:
+			goto tr741
+		case 32:
+			goto tr741
+		case 58:
+			goto tr742
 		}
-		goto tr417
+		goto tr418
 	st542:
 		if p++; p == pe {
 			goto _test_eof542
 		}
 	st_case_542:
-		switch data[p] {
-		case 69:
-			goto st543
-		case 101:
+		if data[p] == 45 {
 			goto st543
 		}
-		goto tr417
+		goto tr418
 	st543:
 		if p++; p == pe {
 			goto _test_eof543
 		}
 	st_case_543:
 		switch data[p] {
-		case 88:
+		case 69:
 			goto st544
-		case 120:
+		case 101:
 			goto st544
 		}
-		goto tr417
+		goto tr418
 	st544:
 		if p++; p == pe {
 			goto _test_eof544
 		}
 	st_case_544:
 		switch data[p] {
-		case 80:
+		case 88:
 			goto st545
-		case 112:
+		case 120:
 			goto st545
 		}
-		goto tr417
+		goto tr418
 	st545:
 		if p++; p == pe {
 			goto _test_eof545
 		}
 	st_case_545:
 		switch data[p] {
-		case 73:
+		case 80:
 			goto st546
-		case 105:
+		case 112:
 			goto st546
 		}
-		goto tr417
+		goto tr418
 	st546:
 		if p++; p == pe {
 			goto _test_eof546
 		}
 	st_case_546:
 		switch data[p] {
-		case 82:
+		case 73:
 			goto st547
-		case 114:
+		case 105:
 			goto st547
 		}
-		goto tr417
+		goto tr418
 	st547:
 		if p++; p == pe {
 			goto _test_eof547
 		}
 	st_case_547:
 		switch data[p] {
-		case 69:
+		case 82:
 			goto st548
-		case 101:
+		case 114:
 			goto st548
 		}
-		goto tr417
+		goto tr418
 	st548:
 		if p++; p == pe {
 			goto _test_eof548
 		}
 	st_case_548:
 		switch data[p] {
-		case 83:
+		case 69:
 			goto st549
-		case 115:
+		case 101:
 			goto st549
 		}
-		goto tr417
+		goto tr418
 	st549:
 		if p++; p == pe {
 			goto _test_eof549
 		}
 	st_case_549:
 		switch data[p] {
-		case 9:
+		case 83:
 			goto st550
-		case 32:
+		case 115:
 			goto st550
-		case 58:
-			goto st551
 		}
-		goto tr417
+		goto tr418
 	st550:
 		if p++; p == pe {
 			goto _test_eof550
@@ -14338,18 +14326,32 @@ tr726:
 	st_case_550:
 		switch data[p] {
 		case 9:
-			goto st550
+			goto st551
 		case 32:
-			goto st550
-		case 58:
 			goto st551
+		case 58:
+			goto st552
 		}
-		goto st0
+		goto tr418
 	st551:
 		if p++; p == pe {
 			goto _test_eof551
 		}
 	st_case_551:
+		switch data[p] {
+		case 9:
+			goto st551
+		case 32:
+			goto st551
+		case 58:
+			goto st552
+		}
+		goto st0
+	st552:
+		if p++; p == pe {
+			goto _test_eof552
+		}
+	st_case_552:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -14359,36 +14361,36 @@ tr726:
 		}
 		switch _widec {
 		case 9:
-			goto st551
+			goto st552
 		case 32:
-			goto st551
+			goto st552
 		case 525:
-			goto st553
+			goto st554
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr752
+			goto tr753
 		}
 		goto st0
-tr752:
+tr753:
 //line sip.rl:497
 msg.MinExpires=0
 //line sip.rl:248
 
 	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
 
-	goto st552
-tr754:
+	goto st553
+tr755:
 //line sip.rl:248
 
 	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
 
-	goto st552
-	st552:
+	goto st553
+	st553:
 		if p++; p == pe {
-			goto _test_eof552
+			goto _test_eof553
 		}
-	st_case_552:
-//line msg_parse.go:14383
+	st_case_553:
+//line msg_parse.go:14385
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -14397,19 +14399,10 @@ tr754:
 			}
 		}
 		if _widec == 269 {
-			goto st381
+			goto st382
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr754
-		}
-		goto st0
-	st553:
-		if p++; p == pe {
-			goto _test_eof553
-		}
-	st_case_553:
-		if data[p] == 10 {
-			goto st554
+			goto tr755
 		}
 		goto st0
 	st554:
@@ -14417,10 +14410,7 @@ tr754:
 			goto _test_eof554
 		}
 	st_case_554:
-		switch data[p] {
-		case 9:
-			goto st555
-		case 32:
+		if data[p] == 10 {
 			goto st555
 		}
 		goto st0
@@ -14431,12 +14421,9 @@ tr754:
 	st_case_555:
 		switch data[p] {
 		case 9:
-			goto st555
+			goto st556
 		case 32:
-			goto st555
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr752
+			goto st556
 		}
 		goto st0
 	st556:
@@ -14446,189 +14433,192 @@ tr754:
 	st_case_556:
 		switch data[p] {
 		case 9:
-			goto tr670
+			goto st556
 		case 32:
-			goto tr670
-		case 58:
-			goto tr671
-		case 82:
-			goto st557
-		case 114:
-			goto st557
+			goto st556
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr753
 		}
-		goto tr417
+		goto st0
 	st557:
 		if p++; p == pe {
 			goto _test_eof557
 		}
 	st_case_557:
 		switch data[p] {
-		case 71:
+		case 9:
+			goto tr671
+		case 32:
+			goto tr671
+		case 58:
+			goto tr672
+		case 82:
 			goto st558
-		case 103:
+		case 114:
 			goto st558
 		}
-		goto tr417
+		goto tr418
 	st558:
 		if p++; p == pe {
 			goto _test_eof558
 		}
 	st_case_558:
 		switch data[p] {
-		case 65:
+		case 71:
 			goto st559
-		case 97:
+		case 103:
 			goto st559
 		}
-		goto tr417
+		goto tr418
 	st559:
 		if p++; p == pe {
 			goto _test_eof559
 		}
 	st_case_559:
 		switch data[p] {
-		case 78:
+		case 65:
 			goto st560
-		case 110:
+		case 97:
 			goto st560
 		}
-		goto tr417
+		goto tr418
 	st560:
 		if p++; p == pe {
 			goto _test_eof560
 		}
 	st_case_560:
 		switch data[p] {
-		case 73:
+		case 78:
 			goto st561
-		case 105:
+		case 110:
 			goto st561
 		}
-		goto tr417
+		goto tr418
 	st561:
 		if p++; p == pe {
 			goto _test_eof561
 		}
 	st_case_561:
 		switch data[p] {
-		case 90:
+		case 73:
 			goto st562
-		case 122:
+		case 105:
 			goto st562
 		}
-		goto tr417
+		goto tr418
 	st562:
 		if p++; p == pe {
 			goto _test_eof562
 		}
 	st_case_562:
 		switch data[p] {
-		case 65:
+		case 90:
 			goto st563
-		case 97:
+		case 122:
 			goto st563
 		}
-		goto tr417
+		goto tr418
 	st563:
 		if p++; p == pe {
 			goto _test_eof563
 		}
 	st_case_563:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st564
-		case 116:
+		case 97:
 			goto st564
 		}
-		goto tr417
+		goto tr418
 	st564:
 		if p++; p == pe {
 			goto _test_eof564
 		}
 	st_case_564:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st565
-		case 105:
+		case 116:
 			goto st565
 		}
-		goto tr417
+		goto tr418
 	st565:
 		if p++; p == pe {
 			goto _test_eof565
 		}
 	st_case_565:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st566
-		case 111:
+		case 105:
 			goto st566
 		}
-		goto tr417
+		goto tr418
 	st566:
 		if p++; p == pe {
 			goto _test_eof566
 		}
 	st_case_566:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st567
-		case 110:
+		case 111:
 			goto st567
 		}
-		goto tr417
+		goto tr418
 	st567:
 		if p++; p == pe {
 			goto _test_eof567
 		}
 	st_case_567:
 		switch data[p] {
-		case 9:
-			goto tr768
-		case 32:
-			goto tr768
-		case 58:
-			goto tr769
+		case 78:
+			goto st568
+		case 110:
+			goto st568
 		}
-		goto tr417
+		goto tr418
 	st568:
 		if p++; p == pe {
 			goto _test_eof568
 		}
 	st_case_568:
 		switch data[p] {
-		case 45:
-			goto st569
-		case 82:
-			goto st587
-		case 114:
-			goto st587
+		case 9:
+			goto tr769
+		case 32:
+			goto tr769
+		case 58:
+			goto tr770
 		}
-		goto tr417
+		goto tr418
 	st569:
 		if p++; p == pe {
 			goto _test_eof569
 		}
 	st_case_569:
 		switch data[p] {
-		case 65:
-			goto st570
-		case 97:
+		case 45:
 			goto st570
+		case 82:
+			goto st588
+		case 114:
+			goto st588
 		}
-		goto tr417
+		goto tr418
 	st570:
 		if p++; p == pe {
 			goto _test_eof570
 		}
 	st_case_570:
 		switch data[p] {
-		case 83:
+		case 65:
 			goto st571
-		case 115:
+		case 97:
 			goto st571
 		}
-		goto tr417
+		goto tr418
 	st571:
 		if p++; p == pe {
 			goto _test_eof571
@@ -14640,671 +14630,669 @@ tr754:
 		case 115:
 			goto st572
 		}
-		goto tr417
+		goto tr418
 	st572:
 		if p++; p == pe {
 			goto _test_eof572
 		}
 	st_case_572:
 		switch data[p] {
-		case 69:
+		case 83:
 			goto st573
-		case 101:
+		case 115:
 			goto st573
 		}
-		goto tr417
+		goto tr418
 	st573:
 		if p++; p == pe {
 			goto _test_eof573
 		}
 	st_case_573:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st574
-		case 114:
+		case 101:
 			goto st574
 		}
-		goto tr417
+		goto tr418
 	st574:
 		if p++; p == pe {
 			goto _test_eof574
 		}
 	st_case_574:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st575
-		case 116:
+		case 114:
 			goto st575
 		}
-		goto tr417
+		goto tr418
 	st575:
 		if p++; p == pe {
 			goto _test_eof575
 		}
 	st_case_575:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st576
-		case 101:
+		case 116:
 			goto st576
 		}
-		goto tr417
+		goto tr418
 	st576:
 		if p++; p == pe {
 			goto _test_eof576
 		}
 	st_case_576:
 		switch data[p] {
-		case 68:
+		case 69:
 			goto st577
-		case 100:
+		case 101:
 			goto st577
 		}
-		goto tr417
+		goto tr418
 	st577:
 		if p++; p == pe {
 			goto _test_eof577
 		}
 	st_case_577:
-		if data[p] == 45 {
+		switch data[p] {
+		case 68:
+			goto st578
+		case 100:
 			goto st578
 		}
-		goto tr417
+		goto tr418
 	st578:
 		if p++; p == pe {
 			goto _test_eof578
 		}
 	st_case_578:
-		switch data[p] {
-		case 73:
-			goto st579
-		case 105:
+		if data[p] == 45 {
 			goto st579
 		}
-		goto tr417
+		goto tr418
 	st579:
 		if p++; p == pe {
 			goto _test_eof579
 		}
 	st_case_579:
 		switch data[p] {
-		case 68:
+		case 73:
 			goto st580
-		case 100:
+		case 105:
 			goto st580
 		}
-		goto tr417
+		goto tr418
 	st580:
 		if p++; p == pe {
 			goto _test_eof580
 		}
 	st_case_580:
 		switch data[p] {
-		case 69:
+		case 68:
 			goto st581
-		case 101:
+		case 100:
 			goto st581
 		}
-		goto tr417
+		goto tr418
 	st581:
 		if p++; p == pe {
 			goto _test_eof581
 		}
 	st_case_581:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st582
-		case 110:
+		case 101:
 			goto st582
 		}
-		goto tr417
+		goto tr418
 	st582:
 		if p++; p == pe {
 			goto _test_eof582
 		}
 	st_case_582:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st583
-		case 116:
+		case 110:
 			goto st583
 		}
-		goto tr417
+		goto tr418
 	st583:
 		if p++; p == pe {
 			goto _test_eof583
 		}
 	st_case_583:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st584
-		case 105:
+		case 116:
 			goto st584
 		}
-		goto tr417
+		goto tr418
 	st584:
 		if p++; p == pe {
 			goto _test_eof584
 		}
 	st_case_584:
 		switch data[p] {
-		case 84:
+		case 73:
 			goto st585
-		case 116:
+		case 105:
 			goto st585
 		}
-		goto tr417
+		goto tr418
 	st585:
 		if p++; p == pe {
 			goto _test_eof585
 		}
 	st_case_585:
 		switch data[p] {
-		case 89:
+		case 84:
 			goto st586
-		case 121:
+		case 116:
 			goto st586
 		}
-		goto tr417
+		goto tr418
 	st586:
 		if p++; p == pe {
 			goto _test_eof586
 		}
 	st_case_586:
 		switch data[p] {
-		case 9:
-			goto tr789
-		case 32:
-			goto tr789
-		case 58:
-			goto tr790
+		case 89:
+			goto st587
+		case 121:
+			goto st587
 		}
-		goto tr417
+		goto tr418
 	st587:
 		if p++; p == pe {
 			goto _test_eof587
 		}
 	st_case_587:
 		switch data[p] {
-		case 73:
-			goto st588
-		case 79:
-			goto st594
-		case 105:
-			goto st588
-		case 111:
-			goto st594
+		case 9:
+			goto tr790
+		case 32:
+			goto tr790
+		case 58:
+			goto tr791
 		}
-		goto tr417
+		goto tr418
 	st588:
 		if p++; p == pe {
 			goto _test_eof588
 		}
 	st_case_588:
 		switch data[p] {
+		case 73:
+			goto st589
 		case 79:
+			goto st595
+		case 105:
 			goto st589
 		case 111:
-			goto st589
+			goto st595
 		}
-		goto tr417
+		goto tr418
 	st589:
 		if p++; p == pe {
 			goto _test_eof589
 		}
 	st_case_589:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st590
-		case 114:
+		case 111:
 			goto st590
 		}
-		goto tr417
+		goto tr418
 	st590:
 		if p++; p == pe {
 			goto _test_eof590
 		}
 	st_case_590:
 		switch data[p] {
-		case 73:
+		case 82:
 			goto st591
-		case 105:
+		case 114:
 			goto st591
 		}
-		goto tr417
+		goto tr418
 	st591:
 		if p++; p == pe {
 			goto _test_eof591
 		}
 	st_case_591:
 		switch data[p] {
-		case 84:
+		case 73:
 			goto st592
-		case 116:
+		case 105:
 			goto st592
 		}
-		goto tr417
+		goto tr418
 	st592:
 		if p++; p == pe {
 			goto _test_eof592
 		}
 	st_case_592:
 		switch data[p] {
-		case 89:
+		case 84:
 			goto st593
-		case 121:
+		case 116:
 			goto st593
 		}
-		goto tr417
+		goto tr418
 	st593:
 		if p++; p == pe {
 			goto _test_eof593
 		}
 	st_case_593:
 		switch data[p] {
-		case 9:
-			goto tr798
-		case 32:
-			goto tr798
-		case 58:
-			goto tr799
+		case 89:
+			goto st594
+		case 121:
+			goto st594
 		}
-		goto tr417
+		goto tr418
 	st594:
 		if p++; p == pe {
 			goto _test_eof594
 		}
 	st_case_594:
 		switch data[p] {
-		case 88:
-			goto st595
-		case 120:
-			goto st595
+		case 9:
+			goto tr799
+		case 32:
+			goto tr799
+		case 58:
+			goto tr800
 		}
-		goto tr417
+		goto tr418
 	st595:
 		if p++; p == pe {
 			goto _test_eof595
 		}
 	st_case_595:
 		switch data[p] {
-		case 89:
+		case 88:
 			goto st596
-		case 121:
+		case 120:
 			goto st596
 		}
-		goto tr417
+		goto tr418
 	st596:
 		if p++; p == pe {
 			goto _test_eof596
 		}
 	st_case_596:
-		if data[p] == 45 {
+		switch data[p] {
+		case 89:
+			goto st597
+		case 121:
 			goto st597
 		}
-		goto tr417
+		goto tr418
 	st597:
 		if p++; p == pe {
 			goto _test_eof597
 		}
 	st_case_597:
-		switch data[p] {
-		case 65:
-			goto st598
-		case 82:
-			goto st619
-		case 97:
+		if data[p] == 45 {
 			goto st598
-		case 114:
-			goto st619
 		}
-		goto tr417
+		goto tr418
 	st598:
 		if p++; p == pe {
 			goto _test_eof598
 		}
 	st_case_598:
 		switch data[p] {
-		case 85:
+		case 65:
 			goto st599
-		case 117:
+		case 82:
+			goto st620
+		case 97:
 			goto st599
+		case 114:
+			goto st620
 		}
-		goto tr417
+		goto tr418
 	st599:
 		if p++; p == pe {
 			goto _test_eof599
 		}
 	st_case_599:
 		switch data[p] {
-		case 84:
+		case 85:
 			goto st600
-		case 116:
+		case 117:
 			goto st600
 		}
-		goto tr417
+		goto tr418
 	st600:
 		if p++; p == pe {
 			goto _test_eof600
 		}
 	st_case_600:
 		switch data[p] {
-		case 72:
+		case 84:
 			goto st601
-		case 104:
+		case 116:
 			goto st601
 		}
-		goto tr417
+		goto tr418
 	st601:
 		if p++; p == pe {
 			goto _test_eof601
 		}
 	st_case_601:
 		switch data[p] {
-		case 69:
+		case 72:
 			goto st602
-		case 79:
-			goto st610
-		case 101:
+		case 104:
 			goto st602
-		case 111:
-			goto st610
 		}
-		goto tr417
+		goto tr418
 	st602:
 		if p++; p == pe {
 			goto _test_eof602
 		}
 	st_case_602:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st603
-		case 110:
+		case 79:
+			goto st611
+		case 101:
 			goto st603
+		case 111:
+			goto st611
 		}
-		goto tr417
+		goto tr418
 	st603:
 		if p++; p == pe {
 			goto _test_eof603
 		}
 	st_case_603:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st604
-		case 116:
+		case 110:
 			goto st604
 		}
-		goto tr417
+		goto tr418
 	st604:
 		if p++; p == pe {
 			goto _test_eof604
 		}
 	st_case_604:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st605
-		case 105:
+		case 116:
 			goto st605
 		}
-		goto tr417
+		goto tr418
 	st605:
 		if p++; p == pe {
 			goto _test_eof605
 		}
 	st_case_605:
 		switch data[p] {
-		case 67:
+		case 73:
 			goto st606
-		case 99:
+		case 105:
 			goto st606
 		}
-		goto tr417
+		goto tr418
 	st606:
 		if p++; p == pe {
 			goto _test_eof606
 		}
 	st_case_606:
 		switch data[p] {
-		case 65:
+		case 67:
 			goto st607
-		case 97:
+		case 99:
 			goto st607
 		}
-		goto tr417
+		goto tr418
 	st607:
 		if p++; p == pe {
 			goto _test_eof607
 		}
 	st_case_607:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st608
-		case 116:
+		case 97:
 			goto st608
 		}
-		goto tr417
+		goto tr418
 	st608:
 		if p++; p == pe {
 			goto _test_eof608
 		}
 	st_case_608:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st609
-		case 101:
+		case 116:
 			goto st609
 		}
-		goto tr417
+		goto tr418
 	st609:
 		if p++; p == pe {
 			goto _test_eof609
 		}
 	st_case_609:
 		switch data[p] {
-		case 9:
-			goto tr817
-		case 32:
-			goto tr817
-		case 58:
-			goto tr818
+		case 69:
+			goto st610
+		case 101:
+			goto st610
 		}
-		goto tr417
+		goto tr418
 	st610:
 		if p++; p == pe {
 			goto _test_eof610
 		}
 	st_case_610:
 		switch data[p] {
-		case 82:
-			goto st611
-		case 114:
-			goto st611
+		case 9:
+			goto tr818
+		case 32:
+			goto tr818
+		case 58:
+			goto tr819
 		}
-		goto tr417
+		goto tr418
 	st611:
 		if p++; p == pe {
 			goto _test_eof611
 		}
 	st_case_611:
 		switch data[p] {
-		case 73:
+		case 82:
 			goto st612
-		case 105:
+		case 114:
 			goto st612
 		}
-		goto tr417
+		goto tr418
 	st612:
 		if p++; p == pe {
 			goto _test_eof612
 		}
 	st_case_612:
 		switch data[p] {
-		case 90:
+		case 73:
 			goto st613
-		case 122:
+		case 105:
 			goto st613
 		}
-		goto tr417
+		goto tr418
 	st613:
 		if p++; p == pe {
 			goto _test_eof613
 		}
 	st_case_613:
 		switch data[p] {
-		case 65:
+		case 90:
 			goto st614
-		case 97:
+		case 122:
 			goto st614
 		}
-		goto tr417
+		goto tr418
 	st614:
 		if p++; p == pe {
 			goto _test_eof614
 		}
 	st_case_614:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st615
-		case 116:
+		case 97:
 			goto st615
 		}
-		goto tr417
+		goto tr418
 	st615:
 		if p++; p == pe {
 			goto _test_eof615
 		}
 	st_case_615:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st616
-		case 105:
+		case 116:
 			goto st616
 		}
-		goto tr417
+		goto tr418
 	st616:
 		if p++; p == pe {
 			goto _test_eof616
 		}
 	st_case_616:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st617
-		case 111:
+		case 105:
 			goto st617
 		}
-		goto tr417
+		goto tr418
 	st617:
 		if p++; p == pe {
 			goto _test_eof617
 		}
 	st_case_617:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st618
-		case 110:
+		case 111:
 			goto st618
 		}
-		goto tr417
+		goto tr418
 	st618:
 		if p++; p == pe {
 			goto _test_eof618
 		}
 	st_case_618:
 		switch data[p] {
-		case 9:
-			goto tr827
-		case 32:
-			goto tr827
-		case 58:
-			goto tr828
+		case 78:
+			goto st619
+		case 110:
+			goto st619
 		}
-		goto tr417
+		goto tr418
 	st619:
 		if p++; p == pe {
 			goto _test_eof619
 		}
 	st_case_619:
 		switch data[p] {
-		case 69:
-			goto st620
-		case 101:
-			goto st620
+		case 9:
+			goto tr828
+		case 32:
+			goto tr828
+		case 58:
+			goto tr829
 		}
-		goto tr417
+		goto tr418
 	st620:
 		if p++; p == pe {
 			goto _test_eof620
 		}
 	st_case_620:
 		switch data[p] {
-		case 81:
+		case 69:
 			goto st621
-		case 113:
+		case 101:
 			goto st621
 		}
-		goto tr417
+		goto tr418
 	st621:
 		if p++; p == pe {
 			goto _test_eof621
 		}
 	st_case_621:
 		switch data[p] {
-		case 85:
+		case 81:
 			goto st622
-		case 117:
+		case 113:
 			goto st622
 		}
-		goto tr417
+		goto tr418
 	st622:
 		if p++; p == pe {
 			goto _test_eof622
 		}
 	st_case_622:
 		switch data[p] {
-		case 73:
+		case 85:
 			goto st623
-		case 105:
+		case 117:
 			goto st623
 		}
-		goto tr417
+		goto tr418
 	st623:
 		if p++; p == pe {
 			goto _test_eof623
 		}
 	st_case_623:
 		switch data[p] {
-		case 82:
+		case 73:
 			goto st624
-		case 114:
+		case 105:
 			goto st624
 		}
-		goto tr417
+		goto tr418
 	st624:
 		if p++; p == pe {
 			goto _test_eof624
 		}
 	st_case_624:
 		switch data[p] {
-		case 69:
+		case 82:
 			goto st625
-		case 101:
+		case 114:
 			goto st625
 		}
-		goto tr417
+		goto tr418
 	st625:
 		if p++; p == pe {
 			goto _test_eof625
 		}
 	st_case_625:
 		switch data[p] {
-		case 9:
-			goto tr835
-		case 32:
-			goto tr835
-		case 58:
-			goto tr836
+		case 69:
+			goto st626
+		case 101:
+			goto st626
 		}
-		goto tr417
+		goto tr418
 	st626:
 		if p++; p == pe {
 			goto _test_eof626
@@ -15312,747 +15300,747 @@ tr754:
 	st_case_626:
 		switch data[p] {
 		case 9:
-			goto tr837
+			goto tr836
 		case 32:
-			goto tr837
+			goto tr836
 		case 58:
+			goto tr837
+		}
+		goto tr418
+	st627:
+		if p++; p == pe {
+			goto _test_eof627
+		}
+	st_case_627:
+		switch data[p] {
+		case 9:
+			goto tr838
+		case 32:
 			goto tr838
+		case 58:
+			goto tr839
 		case 69:
-			goto st627
+			goto st628
 		case 79:
-			goto st682
+			goto st683
 		case 101:
-			goto st627
+			goto st628
 		case 111:
-			goto st682
+			goto st683
 		}
-		goto tr417
-	st627:
+		goto tr418
+	st628:
 		if p++; p == pe {
-			goto _test_eof627
+			goto _test_eof628
 		}
-	st_case_627:
+	st_case_628:
 		switch data[p] {
 		case 67:
-			goto st628
+			goto st629
 		case 70:
-			goto st638
+			goto st639
 		case 77:
-			goto st649
+			goto st650
 		case 80:
-			goto st662
+			goto st663
 		case 81:
-			goto st668
+			goto st669
 		case 84:
-			goto st673
+			goto st674
 		case 99:
-			goto st628
+			goto st629
 		case 102:
-			goto st638
+			goto st639
 		case 109:
-			goto st649
+			goto st650
 		case 112:
-			goto st662
+			goto st663
 		case 113:
-			goto st668
+			goto st669
 		case 116:
-			goto st673
-		}
-		goto tr417
-	st628:
-		if p++; p == pe {
-			goto _test_eof628
-		}
-	st_case_628:
-		switch data[p] {
-		case 79:
-			goto st629
-		case 111:
-			goto st629
+			goto st674
 		}
-		goto tr417
+		goto tr418
 	st629:
 		if p++; p == pe {
 			goto _test_eof629
 		}
 	st_case_629:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st630
-		case 114:
+		case 111:
 			goto st630
 		}
-		goto tr417
+		goto tr418
 	st630:
 		if p++; p == pe {
 			goto _test_eof630
 		}
 	st_case_630:
 		switch data[p] {
-		case 68:
+		case 82:
 			goto st631
-		case 100:
+		case 114:
 			goto st631
 		}
-		goto tr417
+		goto tr418
 	st631:
 		if p++; p == pe {
 			goto _test_eof631
 		}
 	st_case_631:
-		if data[p] == 45 {
+		switch data[p] {
+		case 68:
+			goto st632
+		case 100:
 			goto st632
 		}
-		goto tr417
+		goto tr418
 	st632:
 		if p++; p == pe {
 			goto _test_eof632
 		}
 	st_case_632:
-		switch data[p] {
-		case 82:
-			goto st633
-		case 114:
+		if data[p] == 45 {
 			goto st633
 		}
-		goto tr417
+		goto tr418
 	st633:
 		if p++; p == pe {
 			goto _test_eof633
 		}
 	st_case_633:
 		switch data[p] {
-		case 79:
+		case 82:
 			goto st634
-		case 111:
+		case 114:
 			goto st634
 		}
-		goto tr417
+		goto tr418
 	st634:
 		if p++; p == pe {
 			goto _test_eof634
 		}
 	st_case_634:
 		switch data[p] {
-		case 85:
+		case 79:
 			goto st635
-		case 117:
+		case 111:
 			goto st635
 		}
-		goto tr417
+		goto tr418
 	st635:
 		if p++; p == pe {
 			goto _test_eof635
 		}
 	st_case_635:
 		switch data[p] {
-		case 84:
+		case 85:
 			goto st636
-		case 116:
+		case 117:
 			goto st636
 		}
-		goto tr417
+		goto tr418
 	st636:
 		if p++; p == pe {
 			goto _test_eof636
 		}
 	st_case_636:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st637
-		case 101:
+		case 116:
 			goto st637
 		}
-		goto tr417
+		goto tr418
 	st637:
 		if p++; p == pe {
 			goto _test_eof637
 		}
 	st_case_637:
 		switch data[p] {
-		case 9:
-			goto tr856
-		case 32:
-			goto tr856
-		case 58:
-			goto tr857
+		case 69:
+			goto st638
+		case 101:
+			goto st638
 		}
-		goto tr417
+		goto tr418
 	st638:
 		if p++; p == pe {
 			goto _test_eof638
 		}
 	st_case_638:
 		switch data[p] {
-		case 69:
-			goto st639
-		case 101:
-			goto st639
+		case 9:
+			goto tr857
+		case 32:
+			goto tr857
+		case 58:
+			goto tr858
 		}
-		goto tr417
+		goto tr418
 	st639:
 		if p++; p == pe {
 			goto _test_eof639
 		}
 	st_case_639:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st640
-		case 114:
+		case 101:
 			goto st640
 		}
-		goto tr417
+		goto tr418
 	st640:
 		if p++; p == pe {
 			goto _test_eof640
 		}
 	st_case_640:
 		switch data[p] {
-		case 45:
-			goto st641
 		case 82:
-			goto st644
+			goto st641
 		case 114:
-			goto st644
+			goto st641
 		}
-		goto tr417
+		goto tr418
 	st641:
 		if p++; p == pe {
 			goto _test_eof641
 		}
 	st_case_641:
 		switch data[p] {
-		case 84:
-			goto st642
-		case 116:
+		case 45:
 			goto st642
+		case 82:
+			goto st645
+		case 114:
+			goto st645
 		}
-		goto tr417
+		goto tr418
 	st642:
 		if p++; p == pe {
 			goto _test_eof642
 		}
 	st_case_642:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st643
-		case 111:
+		case 116:
 			goto st643
 		}
-		goto tr417
+		goto tr418
 	st643:
 		if p++; p == pe {
 			goto _test_eof643
 		}
 	st_case_643:
 		switch data[p] {
-		case 9:
-			goto tr837
-		case 32:
-			goto tr837
-		case 58:
-			goto tr838
+		case 79:
+			goto st644
+		case 111:
+			goto st644
 		}
-		goto tr417
+		goto tr418
 	st644:
 		if p++; p == pe {
 			goto _test_eof644
 		}
 	st_case_644:
 		switch data[p] {
-		case 69:
-			goto st645
-		case 101:
-			goto st645
+		case 9:
+			goto tr838
+		case 32:
+			goto tr838
+		case 58:
+			goto tr839
 		}
-		goto tr417
+		goto tr418
 	st645:
 		if p++; p == pe {
 			goto _test_eof645
 		}
 	st_case_645:
 		switch data[p] {
-		case 68:
+		case 69:
 			goto st646
-		case 100:
+		case 101:
 			goto st646
 		}
-		goto tr417
+		goto tr418
 	st646:
 		if p++; p == pe {
 			goto _test_eof646
 		}
 	st_case_646:
-		if data[p] == 45 {
+		switch data[p] {
+		case 68:
+			goto st647
+		case 100:
 			goto st647
 		}
-		goto tr417
+		goto tr418
 	st647:
 		if p++; p == pe {
 			goto _test_eof647
 		}
 	st_case_647:
-		switch data[p] {
-		case 66:
-			goto st648
-		case 98:
+		if data[p] == 45 {
 			goto st648
 		}
-		goto tr417
+		goto tr418
 	st648:
 		if p++; p == pe {
 			goto _test_eof648
 		}
 	st_case_648:
 		switch data[p] {
-		case 89:
-			goto st363
-		case 121:
-			goto st363
+		case 66:
+			goto st649
+		case 98:
+			goto st649
 		}
-		goto tr417
+		goto tr418
 	st649:
 		if p++; p == pe {
 			goto _test_eof649
 		}
 	st_case_649:
 		switch data[p] {
-		case 79:
-			goto st650
-		case 111:
-			goto st650
+		case 89:
+			goto st364
+		case 121:
+			goto st364
 		}
-		goto tr417
+		goto tr418
 	st650:
 		if p++; p == pe {
 			goto _test_eof650
 		}
 	st_case_650:
 		switch data[p] {
-		case 84:
+		case 79:
 			goto st651
-		case 116:
+		case 111:
 			goto st651
 		}
-		goto tr417
+		goto tr418
 	st651:
 		if p++; p == pe {
 			goto _test_eof651
 		}
 	st_case_651:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st652
-		case 101:
+		case 116:
 			goto st652
 		}
-		goto tr417
+		goto tr418
 	st652:
 		if p++; p == pe {
 			goto _test_eof652
 		}
 	st_case_652:
-		if data[p] == 45 {
+		switch data[p] {
+		case 69:
+			goto st653
+		case 101:
 			goto st653
 		}
-		goto tr417
+		goto tr418
 	st653:
 		if p++; p == pe {
 			goto _test_eof653
 		}
 	st_case_653:
-		switch data[p] {
-		case 80:
-			goto st654
-		case 112:
+		if data[p] == 45 {
 			goto st654
 		}
-		goto tr417
+		goto tr418
 	st654:
 		if p++; p == pe {
 			goto _test_eof654
 		}
 	st_case_654:
 		switch data[p] {
-		case 65:
+		case 80:
 			goto st655
-		case 97:
+		case 112:
 			goto st655
 		}
-		goto tr417
+		goto tr418
 	st655:
 		if p++; p == pe {
 			goto _test_eof655
 		}
 	st_case_655:
 		switch data[p] {
-		case 82:
+		case 65:
 			goto st656
-		case 114:
+		case 97:
 			goto st656
 		}
-		goto tr417
+		goto tr418
 	st656:
 		if p++; p == pe {
 			goto _test_eof656
 		}
 	st_case_656:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st657
-		case 116:
+		case 114:
 			goto st657
 		}
-		goto tr417
+		goto tr418
 	st657:
 		if p++; p == pe {
 			goto _test_eof657
 		}
 	st_case_657:
 		switch data[p] {
-		case 89:
+		case 84:
 			goto st658
-		case 121:
+		case 116:
 			goto st658
 		}
-		goto tr417
+		goto tr418
 	st658:
 		if p++; p == pe {
 			goto _test_eof658
 		}
 	st_case_658:
-		if data[p] == 45 {
+		switch data[p] {
+		case 89:
+			goto st659
+		case 121:
 			goto st659
 		}
-		goto tr417
+		goto tr418
 	st659:
 		if p++; p == pe {
 			goto _test_eof659
 		}
 	st_case_659:
-		switch data[p] {
-		case 73:
-			goto st660
-		case 105:
+		if data[p] == 45 {
 			goto st660
 		}
-		goto tr417
+		goto tr418
 	st660:
 		if p++; p == pe {
 			goto _test_eof660
 		}
 	st_case_660:
 		switch data[p] {
-		case 68:
+		case 73:
 			goto st661
-		case 100:
+		case 105:
 			goto st661
 		}
-		goto tr417
+		goto tr418
 	st661:
 		if p++; p == pe {
 			goto _test_eof661
 		}
 	st_case_661:
 		switch data[p] {
-		case 9:
-			goto tr880
-		case 32:
-			goto tr880
-		case 58:
-			goto tr881
+		case 68:
+			goto st662
+		case 100:
+			goto st662
 		}
-		goto tr417
+		goto tr418
 	st662:
 		if p++; p == pe {
 			goto _test_eof662
 		}
 	st_case_662:
 		switch data[p] {
-		case 76:
-			goto st663
-		case 108:
-			goto st663
+		case 9:
+			goto tr881
+		case 32:
+			goto tr881
+		case 58:
+			goto tr882
 		}
-		goto tr417
+		goto tr418
 	st663:
 		if p++; p == pe {
 			goto _test_eof663
 		}
 	st_case_663:
 		switch data[p] {
-		case 89:
+		case 76:
 			goto st664
-		case 121:
+		case 108:
 			goto st664
 		}
-		goto tr417
+		goto tr418
 	st664:
 		if p++; p == pe {
 			goto _test_eof664
 		}
 	st_case_664:
-		if data[p] == 45 {
+		switch data[p] {
+		case 89:
+			goto st665
+		case 121:
 			goto st665
 		}
-		goto tr417
+		goto tr418
 	st665:
 		if p++; p == pe {
 			goto _test_eof665
 		}
 	st_case_665:
-		switch data[p] {
-		case 84:
-			goto st666
-		case 116:
+		if data[p] == 45 {
 			goto st666
 		}
-		goto tr417
+		goto tr418
 	st666:
 		if p++; p == pe {
 			goto _test_eof666
 		}
 	st_case_666:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st667
-		case 111:
+		case 116:
 			goto st667
 		}
-		goto tr417
+		goto tr418
 	st667:
 		if p++; p == pe {
 			goto _test_eof667
 		}
 	st_case_667:
 		switch data[p] {
-		case 9:
-			goto tr887
-		case 32:
-			goto tr887
-		case 58:
-			goto tr888
+		case 79:
+			goto st668
+		case 111:
+			goto st668
 		}
-		goto tr417
+		goto tr418
 	st668:
 		if p++; p == pe {
 			goto _test_eof668
 		}
 	st_case_668:
 		switch data[p] {
-		case 85:
-			goto st669
-		case 117:
-			goto st669
+		case 9:
+			goto tr888
+		case 32:
+			goto tr888
+		case 58:
+			goto tr889
 		}
-		goto tr417
+		goto tr418
 	st669:
 		if p++; p == pe {
 			goto _test_eof669
 		}
 	st_case_669:
 		switch data[p] {
-		case 73:
+		case 85:
 			goto st670
-		case 105:
+		case 117:
 			goto st670
 		}
-		goto tr417
+		goto tr418
 	st670:
 		if p++; p == pe {
 			goto _test_eof670
 		}
 	st_case_670:
 		switch data[p] {
-		case 82:
+		case 73:
 			goto st671
-		case 114:
+		case 105:
 			goto st671
 		}
-		goto tr417
+		goto tr418
 	st671:
 		if p++; p == pe {
 			goto _test_eof671
 		}
 	st_case_671:
 		switch data[p] {
-		case 69:
+		case 82:
 			goto st672
-		case 101:
+		case 114:
 			goto st672
 		}
-		goto tr417
+		goto tr418
 	st672:
 		if p++; p == pe {
 			goto _test_eof672
 		}
 	st_case_672:
 		switch data[p] {
-		case 9:
-			goto tr893
-		case 32:
-			goto tr893
-		case 58:
-			goto tr894
+		case 69:
+			goto st673
+		case 101:
+			goto st673
 		}
-		goto tr417
+		goto tr418
 	st673:
 		if p++; p == pe {
 			goto _test_eof673
 		}
 	st_case_673:
 		switch data[p] {
-		case 82:
-			goto st674
-		case 114:
-			goto st674
+		case 9:
+			goto tr894
+		case 32:
+			goto tr894
+		case 58:
+			goto tr895
 		}
-		goto tr417
+		goto tr418
 	st674:
 		if p++; p == pe {
 			goto _test_eof674
 		}
 	st_case_674:
 		switch data[p] {
-		case 89:
+		case 82:
 			goto st675
-		case 121:
+		case 114:
 			goto st675
 		}
-		goto tr417
+		goto tr418
 	st675:
 		if p++; p == pe {
 			goto _test_eof675
 		}
 	st_case_675:
-		if data[p] == 45 {
+		switch data[p] {
+		case 89:
+			goto st676
+		case 121:
 			goto st676
 		}
-		goto tr417
+		goto tr418
 	st676:
 		if p++; p == pe {
 			goto _test_eof676
 		}
 	st_case_676:
-		switch data[p] {
-		case 65:
-			goto st677
-		case 97:
+		if data[p] == 45 {
 			goto st677
 		}
-		goto tr417
+		goto tr418
 	st677:
 		if p++; p == pe {
 			goto _test_eof677
 		}
 	st_case_677:
 		switch data[p] {
-		case 70:
+		case 65:
 			goto st678
-		case 102:
+		case 97:
 			goto st678
 		}
-		goto tr417
+		goto tr418
 	st678:
 		if p++; p == pe {
 			goto _test_eof678
 		}
 	st_case_678:
 		switch data[p] {
-		case 84:
+		case 70:
 			goto st679
-		case 116:
+		case 102:
 			goto st679
 		}
-		goto tr417
+		goto tr418
 	st679:
 		if p++; p == pe {
 			goto _test_eof679
 		}
 	st_case_679:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st680
-		case 101:
+		case 116:
 			goto st680
 		}
-		goto tr417
+		goto tr418
 	st680:
 		if p++; p == pe {
 			goto _test_eof680
 		}
 	st_case_680:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st681
-		case 114:
+		case 101:
 			goto st681
 		}
-		goto tr417
+		goto tr418
 	st681:
 		if p++; p == pe {
 			goto _test_eof681
 		}
 	st_case_681:
 		switch data[p] {
-		case 9:
-			goto tr903
-		case 32:
-			goto tr903
-		case 58:
-			goto tr904
+		case 82:
+			goto st682
+		case 114:
+			goto st682
 		}
-		goto tr417
+		goto tr418
 	st682:
 		if p++; p == pe {
 			goto _test_eof682
 		}
 	st_case_682:
 		switch data[p] {
-		case 85:
-			goto st683
-		case 117:
-			goto st683
+		case 9:
+			goto tr904
+		case 32:
+			goto tr904
+		case 58:
+			goto tr905
 		}
-		goto tr417
+		goto tr418
 	st683:
 		if p++; p == pe {
 			goto _test_eof683
 		}
 	st_case_683:
 		switch data[p] {
-		case 84:
+		case 85:
 			goto st684
-		case 116:
+		case 117:
 			goto st684
 		}
-		goto tr417
+		goto tr418
 	st684:
 		if p++; p == pe {
 			goto _test_eof684
 		}
 	st_case_684:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st685
-		case 101:
+		case 116:
 			goto st685
 		}
-		goto tr417
+		goto tr418
 	st685:
 		if p++; p == pe {
 			goto _test_eof685
 		}
 	st_case_685:
 		switch data[p] {
-		case 9:
-			goto tr908
-		case 32:
-			goto tr908
-		case 58:
-			goto tr909
+		case 69:
+			goto st686
+		case 101:
+			goto st686
 		}
-		goto tr417
+		goto tr418
 	st686:
 		if p++; p == pe {
 			goto _test_eof686
@@ -16060,353 +16048,353 @@ tr754:
 	st_case_686:
 		switch data[p] {
 		case 9:
-			goto tr910
+			goto tr909
 		case 32:
-			goto tr910
+			goto tr909
 		case 58:
-			goto tr911
-		case 69:
-			goto st687
-		case 85:
-			goto st692
-		case 101:
-			goto st687
-		case 117:
-			goto st692
+			goto tr910
 		}
-		goto tr417
+		goto tr418
 	st687:
 		if p++; p == pe {
 			goto _test_eof687
 		}
 	st_case_687:
 		switch data[p] {
-		case 82:
+		case 9:
+			goto tr911
+		case 32:
+			goto tr911
+		case 58:
+			goto tr912
+		case 69:
 			goto st688
-		case 114:
+		case 85:
+			goto st693
+		case 101:
 			goto st688
+		case 117:
+			goto st693
 		}
-		goto tr417
+		goto tr418
 	st688:
 		if p++; p == pe {
 			goto _test_eof688
 		}
 	st_case_688:
 		switch data[p] {
-		case 86:
+		case 82:
 			goto st689
-		case 118:
+		case 114:
 			goto st689
 		}
-		goto tr417
+		goto tr418
 	st689:
 		if p++; p == pe {
 			goto _test_eof689
 		}
 	st_case_689:
 		switch data[p] {
-		case 69:
+		case 86:
 			goto st690
-		case 101:
+		case 118:
 			goto st690
 		}
-		goto tr417
+		goto tr418
 	st690:
 		if p++; p == pe {
 			goto _test_eof690
 		}
 	st_case_690:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st691
-		case 114:
+		case 101:
 			goto st691
 		}
-		goto tr417
+		goto tr418
 	st691:
 		if p++; p == pe {
 			goto _test_eof691
 		}
 	st_case_691:
 		switch data[p] {
-		case 9:
-			goto tr918
-		case 32:
-			goto tr918
-		case 58:
-			goto tr919
+		case 82:
+			goto st692
+		case 114:
+			goto st692
 		}
-		goto tr417
+		goto tr418
 	st692:
 		if p++; p == pe {
 			goto _test_eof692
 		}
 	st_case_692:
 		switch data[p] {
-		case 66:
-			goto st693
-		case 80:
-			goto st698
-		case 98:
-			goto st693
-		case 112:
-			goto st698
+		case 9:
+			goto tr919
+		case 32:
+			goto tr919
+		case 58:
+			goto tr920
 		}
-		goto tr417
+		goto tr418
 	st693:
 		if p++; p == pe {
 			goto _test_eof693
 		}
 	st_case_693:
 		switch data[p] {
-		case 74:
+		case 66:
 			goto st694
-		case 106:
+		case 80:
+			goto st699
+		case 98:
 			goto st694
+		case 112:
+			goto st699
 		}
-		goto tr417
+		goto tr418
 	st694:
 		if p++; p == pe {
 			goto _test_eof694
 		}
 	st_case_694:
 		switch data[p] {
-		case 69:
+		case 74:
 			goto st695
-		case 101:
+		case 106:
 			goto st695
 		}
-		goto tr417
+		goto tr418
 	st695:
 		if p++; p == pe {
 			goto _test_eof695
 		}
 	st_case_695:
 		switch data[p] {
-		case 67:
+		case 69:
 			goto st696
-		case 99:
+		case 101:
 			goto st696
 		}
-		goto tr417
+		goto tr418
 	st696:
 		if p++; p == pe {
 			goto _test_eof696
 		}
 	st_case_696:
 		switch data[p] {
-		case 84:
+		case 67:
 			goto st697
-		case 116:
+		case 99:
 			goto st697
 		}
-		goto tr417
+		goto tr418
 	st697:
 		if p++; p == pe {
 			goto _test_eof697
 		}
 	st_case_697:
 		switch data[p] {
-		case 9:
-			goto tr910
-		case 32:
-			goto tr910
-		case 58:
-			goto tr911
+		case 84:
+			goto st698
+		case 116:
+			goto st698
 		}
-		goto tr417
+		goto tr418
 	st698:
 		if p++; p == pe {
 			goto _test_eof698
 		}
 	st_case_698:
 		switch data[p] {
-		case 80:
-			goto st699
-		case 112:
-			goto st699
+		case 9:
+			goto tr911
+		case 32:
+			goto tr911
+		case 58:
+			goto tr912
 		}
-		goto tr417
+		goto tr418
 	st699:
 		if p++; p == pe {
 			goto _test_eof699
 		}
 	st_case_699:
 		switch data[p] {
-		case 79:
+		case 80:
 			goto st700
-		case 111:
+		case 112:
 			goto st700
 		}
-		goto tr417
+		goto tr418
 	st700:
 		if p++; p == pe {
 			goto _test_eof700
 		}
 	st_case_700:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st701
-		case 114:
+		case 111:
 			goto st701
 		}
-		goto tr417
+		goto tr418
 	st701:
 		if p++; p == pe {
 			goto _test_eof701
 		}
 	st_case_701:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st702
-		case 116:
+		case 114:
 			goto st702
 		}
-		goto tr417
+		goto tr418
 	st702:
 		if p++; p == pe {
 			goto _test_eof702
 		}
 	st_case_702:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st703
-		case 101:
+		case 116:
 			goto st703
 		}
-		goto tr417
+		goto tr418
 	st703:
 		if p++; p == pe {
 			goto _test_eof703
 		}
 	st_case_703:
 		switch data[p] {
-		case 68:
-			goto st504
-		case 100:
-			goto st504
+		case 69:
+			goto st704
+		case 101:
+			goto st704
 		}
-		goto tr417
+		goto tr418
 	st704:
 		if p++; p == pe {
 			goto _test_eof704
 		}
 	st_case_704:
 		switch data[p] {
-		case 9:
-			goto tr931
-		case 32:
-			goto tr931
-		case 58:
-			goto tr932
-		case 73:
-			goto st705
-		case 79:
-			goto st713
-		case 105:
-			goto st705
-		case 111:
-			goto st713
+		case 68:
+			goto st505
+		case 100:
+			goto st505
 		}
-		goto tr417
+		goto tr418
 	st705:
 		if p++; p == pe {
 			goto _test_eof705
 		}
 	st_case_705:
 		switch data[p] {
-		case 77:
+		case 9:
+			goto tr932
+		case 32:
+			goto tr932
+		case 58:
+			goto tr933
+		case 73:
 			goto st706
-		case 109:
+		case 79:
+			goto st714
+		case 105:
 			goto st706
+		case 111:
+			goto st714
 		}
-		goto tr417
+		goto tr418
 	st706:
 		if p++; p == pe {
 			goto _test_eof706
 		}
 	st_case_706:
 		switch data[p] {
-		case 69:
+		case 77:
 			goto st707
-		case 101:
+		case 109:
 			goto st707
 		}
-		goto tr417
+		goto tr418
 	st707:
 		if p++; p == pe {
 			goto _test_eof707
 		}
 	st_case_707:
 		switch data[p] {
-		case 83:
+		case 69:
 			goto st708
-		case 115:
+		case 101:
 			goto st708
 		}
-		goto tr417
+		goto tr418
 	st708:
 		if p++; p == pe {
 			goto _test_eof708
 		}
 	st_case_708:
 		switch data[p] {
-		case 84:
+		case 83:
 			goto st709
-		case 116:
+		case 115:
 			goto st709
 		}
-		goto tr417
+		goto tr418
 	st709:
 		if p++; p == pe {
 			goto _test_eof709
 		}
 	st_case_709:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st710
-		case 97:
+		case 116:
 			goto st710
 		}
-		goto tr417
+		goto tr418
 	st710:
 		if p++; p == pe {
 			goto _test_eof710
 		}
 	st_case_710:
 		switch data[p] {
-		case 77:
+		case 65:
 			goto st711
-		case 109:
+		case 97:
 			goto st711
 		}
-		goto tr417
+		goto tr418
 	st711:
 		if p++; p == pe {
 			goto _test_eof711
 		}
 	st_case_711:
 		switch data[p] {
-		case 80:
+		case 77:
 			goto st712
-		case 112:
+		case 109:
 			goto st712
 		}
-		goto tr417
+		goto tr418
 	st712:
 		if p++; p == pe {
 			goto _test_eof712
 		}
 	st_case_712:
 		switch data[p] {
-		case 9:
-			goto tr942
-		case 32:
-			goto tr942
-		case 58:
-			goto tr943
+		case 80:
+			goto st713
+		case 112:
+			goto st713
 		}
-		goto tr417
+		goto tr418
 	st713:
 		if p++; p == pe {
 			goto _test_eof713
@@ -16414,13 +16402,13 @@ tr754:
 	st_case_713:
 		switch data[p] {
 		case 9:
-			goto tr931
+			goto tr943
 		case 32:
-			goto tr931
+			goto tr943
 		case 58:
-			goto tr932
+			goto tr944
 		}
-		goto tr417
+		goto tr418
 	st714:
 		if p++; p == pe {
 			goto _test_eof714
@@ -16428,57 +16416,59 @@ tr754:
 	st_case_714:
 		switch data[p] {
 		case 9:
-			goto tr944
+			goto tr932
 		case 32:
-			goto tr944
+			goto tr932
 		case 58:
-			goto tr945
-		case 78:
-			goto st715
-		case 83:
-			goto st725
-		case 110:
-			goto st715
-		case 115:
-			goto st725
+			goto tr933
 		}
-		goto tr417
+		goto tr418
 	st715:
 		if p++; p == pe {
 			goto _test_eof715
 		}
 	st_case_715:
 		switch data[p] {
+		case 9:
+			goto tr945
+		case 32:
+			goto tr945
+		case 58:
+			goto tr946
+		case 78:
+			goto st716
 		case 83:
+			goto st726
+		case 110:
 			goto st716
 		case 115:
-			goto st716
+			goto st726
 		}
-		goto tr417
+		goto tr418
 	st716:
 		if p++; p == pe {
 			goto _test_eof716
 		}
 	st_case_716:
 		switch data[p] {
-		case 85:
+		case 83:
 			goto st717
-		case 117:
+		case 115:
 			goto st717
 		}
-		goto tr417
+		goto tr418
 	st717:
 		if p++; p == pe {
 			goto _test_eof717
 		}
 	st_case_717:
 		switch data[p] {
-		case 80:
+		case 85:
 			goto st718
-		case 112:
+		case 117:
 			goto st718
 		}
-		goto tr417
+		goto tr418
 	st718:
 		if p++; p == pe {
 			goto _test_eof718
@@ -16490,188 +16480,186 @@ tr754:
 		case 112:
 			goto st719
 		}
-		goto tr417
+		goto tr418
 	st719:
 		if p++; p == pe {
 			goto _test_eof719
 		}
 	st_case_719:
 		switch data[p] {
-		case 79:
+		case 80:
 			goto st720
-		case 111:
+		case 112:
 			goto st720
 		}
-		goto tr417
+		goto tr418
 	st720:
 		if p++; p == pe {
 			goto _test_eof720
 		}
 	st_case_720:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st721
-		case 114:
+		case 111:
 			goto st721
 		}
-		goto tr417
+		goto tr418
 	st721:
 		if p++; p == pe {
 			goto _test_eof721
 		}
 	st_case_721:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st722
-		case 116:
+		case 114:
 			goto st722
 		}
-		goto tr417
+		goto tr418
 	st722:
 		if p++; p == pe {
 			goto _test_eof722
 		}
 	st_case_722:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st723
-		case 101:
+		case 116:
 			goto st723
 		}
-		goto tr417
+		goto tr418
 	st723:
 		if p++; p == pe {
 			goto _test_eof723
 		}
 	st_case_723:
 		switch data[p] {
-		case 68:
+		case 69:
 			goto st724
-		case 100:
+		case 101:
 			goto st724
 		}
-		goto tr417
+		goto tr418
 	st724:
 		if p++; p == pe {
 			goto _test_eof724
 		}
 	st_case_724:
-		switch data[p] {
-		case 9:
-			goto tr957
-		case 32:
-			goto tr957
-		case 58:
-			goto tr958
+		switch data[p] {
+		case 68:
+			goto st725
+		case 100:
+			goto st725
 		}
-		goto tr417
+		goto tr418
 	st725:
 		if p++; p == pe {
 			goto _test_eof725
 		}
 	st_case_725:
 		switch data[p] {
-		case 69:
-			goto st726
-		case 101:
-			goto st726
+		case 9:
+			goto tr958
+		case 32:
+			goto tr958
+		case 58:
+			goto tr959
 		}
-		goto tr417
+		goto tr418
 	st726:
 		if p++; p == pe {
 			goto _test_eof726
 		}
 	st_case_726:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st727
-		case 114:
+		case 101:
 			goto st727
 		}
-		goto tr417
+		goto tr418
 	st727:
 		if p++; p == pe {
 			goto _test_eof727
 		}
 	st_case_727:
-		if data[p] == 45 {
+		switch data[p] {
+		case 82:
+			goto st728
+		case 114:
 			goto st728
 		}
-		goto tr417
+		goto tr418
 	st728:
 		if p++; p == pe {
 			goto _test_eof728
 		}
 	st_case_728:
-		switch data[p] {
-		case 65:
-			goto st729
-		case 97:
+		if data[p] == 45 {
 			goto st729
 		}
-		goto tr417
+		goto tr418
 	st729:
 		if p++; p == pe {
 			goto _test_eof729
 		}
 	st_case_729:
 		switch data[p] {
-		case 71:
+		case 65:
 			goto st730
-		case 103:
+		case 97:
 			goto st730
 		}
-		goto tr417
+		goto tr418
 	st730:
 		if p++; p == pe {
 			goto _test_eof730
 		}
 	st_case_730:
 		switch data[p] {
-		case 69:
+		case 71:
 			goto st731
-		case 101:
+		case 103:
 			goto st731
 		}
-		goto tr417
+		goto tr418
 	st731:
 		if p++; p == pe {
 			goto _test_eof731
 		}
 	st_case_731:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st732
-		case 110:
+		case 101:
 			goto st732
 		}
-		goto tr417
+		goto tr418
 	st732:
 		if p++; p == pe {
 			goto _test_eof732
 		}
 	st_case_732:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st733
-		case 116:
+		case 110:
 			goto st733
 		}
-		goto tr417
+		goto tr418
 	st733:
 		if p++; p == pe {
 			goto _test_eof733
 		}
 	st_case_733:
 		switch data[p] {
-		case 9:
-			goto tr967
-		case 32:
-			goto tr967
-		case 58:
-			goto tr968
+		case 84:
+			goto st734
+		case 116:
+			goto st734
 		}
-		goto tr417
+		goto tr418
 	st734:
 		if p++; p == pe {
 			goto _test_eof734
@@ -16679,17 +16667,13 @@ tr754:
 	st_case_734:
 		switch data[p] {
 		case 9:
-			goto st735
+			goto tr968
 		case 32:
-			goto st735
+			goto tr968
 		case 58:
-			goto st736
-		case 73:
-			goto st740
-		case 105:
-			goto st740
+			goto tr969
 		}
-		goto tr417
+		goto tr418
 	st735:
 		if p++; p == pe {
 			goto _test_eof735
@@ -16697,18 +16681,36 @@ tr754:
 	st_case_735:
 		switch data[p] {
 		case 9:
-			goto st735
+			goto st736
 		case 32:
-			goto st735
-		case 58:
 			goto st736
+		case 58:
+			goto st737
+		case 73:
+			goto st741
+		case 105:
+			goto st741
 		}
-		goto st0
+		goto tr418
 	st736:
 		if p++; p == pe {
 			goto _test_eof736
 		}
 	st_case_736:
+		switch data[p] {
+		case 9:
+			goto st736
+		case 32:
+			goto st736
+		case 58:
+			goto st737
+		}
+		goto st0
+	st737:
+		if p++; p == pe {
+			goto _test_eof737
+		}
+	st_case_737:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -16718,30 +16720,21 @@ tr754:
 		}
 		switch _widec {
 		case 9:
-			goto st736
+			goto st737
 		case 32:
-			goto st736
+			goto st737
 		case 269:
-			goto tr972
+			goto tr973
 		case 525:
-			goto st737
+			goto st738
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr972
+				goto tr973
 			}
 		default:
-			goto tr972
-		}
-		goto st0
-	st737:
-		if p++; p == pe {
-			goto _test_eof737
-		}
-	st_case_737:
-		if data[p] == 10 {
-			goto st738
+			goto tr973
 		}
 		goto st0
 	st738:
@@ -16749,10 +16742,7 @@ tr754:
 			goto _test_eof738
 		}
 	st_case_738:
-		switch data[p] {
-		case 9:
-			goto st739
-		case 32:
+		if data[p] == 10 {
 			goto st739
 		}
 		goto st0
@@ -16763,315 +16753,318 @@ tr754:
 	st_case_739:
 		switch data[p] {
 		case 9:
-			goto st739
+			goto st740
 		case 32:
-			goto st739
+			goto st740
 		}
-		goto tr972
+		goto st0
 	st740:
 		if p++; p == pe {
 			goto _test_eof740
 		}
 	st_case_740:
 		switch data[p] {
-		case 65:
-			goto st741
-		case 97:
-			goto st741
+		case 9:
+			goto st740
+		case 32:
+			goto st740
 		}
-		goto tr417
+		goto tr973
 	st741:
 		if p++; p == pe {
 			goto _test_eof741
 		}
 	st_case_741:
 		switch data[p] {
-		case 9:
-			goto st735
-		case 32:
-			goto st735
-		case 58:
-			goto st736
+		case 65:
+			goto st742
+		case 97:
+			goto st742
 		}
-		goto tr417
+		goto tr418
 	st742:
 		if p++; p == pe {
 			goto _test_eof742
 		}
 	st_case_742:
 		switch data[p] {
-		case 65:
-			goto st743
-		case 87:
-			goto st749
-		case 97:
-			goto st743
-		case 119:
-			goto st749
+		case 9:
+			goto st736
+		case 32:
+			goto st736
+		case 58:
+			goto st737
 		}
-		goto tr417
+		goto tr418
 	st743:
 		if p++; p == pe {
 			goto _test_eof743
 		}
 	st_case_743:
 		switch data[p] {
-		case 82:
+		case 65:
 			goto st744
-		case 114:
+		case 87:
+			goto st750
+		case 97:
 			goto st744
+		case 119:
+			goto st750
 		}
-		goto tr417
+		goto tr418
 	st744:
 		if p++; p == pe {
 			goto _test_eof744
 		}
 	st_case_744:
 		switch data[p] {
-		case 78:
+		case 82:
 			goto st745
-		case 110:
+		case 114:
 			goto st745
 		}
-		goto tr417
+		goto tr418
 	st745:
 		if p++; p == pe {
 			goto _test_eof745
 		}
 	st_case_745:
 		switch data[p] {
-		case 73:
+		case 78:
 			goto st746
-		case 105:
+		case 110:
 			goto st746
 		}
-		goto tr417
+		goto tr418
 	st746:
 		if p++; p == pe {
 			goto _test_eof746
 		}
 	st_case_746:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st747
-		case 110:
+		case 105:
 			goto st747
 		}
-		goto tr417
+		goto tr418
 	st747:
 		if p++; p == pe {
 			goto _test_eof747
 		}
 	st_case_747:
 		switch data[p] {
-		case 71:
+		case 78:
 			goto st748
-		case 103:
+		case 110:
 			goto st748
 		}
-		goto tr417
+		goto tr418
 	st748:
 		if p++; p == pe {
 			goto _test_eof748
 		}
 	st_case_748:
 		switch data[p] {
-		case 9:
-			goto tr984
-		case 32:
-			goto tr984
-		case 58:
-			goto tr985
+		case 71:
+			goto st749
+		case 103:
+			goto st749
 		}
-		goto tr417
+		goto tr418
 	st749:
 		if p++; p == pe {
 			goto _test_eof749
 		}
 	st_case_749:
 		switch data[p] {
-		case 87:
-			goto st750
-		case 119:
-			goto st750
+		case 9:
+			goto tr985
+		case 32:
+			goto tr985
+		case 58:
+			goto tr986
 		}
-		goto tr417
+		goto tr418
 	st750:
 		if p++; p == pe {
 			goto _test_eof750
 		}
 	st_case_750:
-		if data[p] == 45 {
+		switch data[p] {
+		case 87:
+			goto st751
+		case 119:
 			goto st751
 		}
-		goto tr417
+		goto tr418
 	st751:
 		if p++; p == pe {
 			goto _test_eof751
 		}
 	st_case_751:
-		switch data[p] {
-		case 65:
-			goto st752
-		case 97:
+		if data[p] == 45 {
 			goto st752
 		}
-		goto tr417
+		goto tr418
 	st752:
 		if p++; p == pe {
 			goto _test_eof752
 		}
 	st_case_752:
 		switch data[p] {
-		case 85:
+		case 65:
 			goto st753
-		case 117:
+		case 97:
 			goto st753
 		}
-		goto tr417
+		goto tr418
 	st753:
 		if p++; p == pe {
 			goto _test_eof753
 		}
 	st_case_753:
 		switch data[p] {
-		case 84:
+		case 85:
 			goto st754
-		case 116:
+		case 117:
 			goto st754
 		}
-		goto tr417
+		goto tr418
 	st754:
 		if p++; p == pe {
 			goto _test_eof754
 		}
 	st_case_754:
 		switch data[p] {
-		case 72:
+		case 84:
 			goto st755
-		case 104:
+		case 116:
 			goto st755
 		}
-		goto tr417
+		goto tr418
 	st755:
 		if p++; p == pe {
 			goto _test_eof755
 		}
 	st_case_755:
 		switch data[p] {
-		case 69:
+		case 72:
 			goto st756
-		case 101:
+		case 104:
 			goto st756
 		}
-		goto tr417
+		goto tr418
 	st756:
 		if p++; p == pe {
 			goto _test_eof756
 		}
 	st_case_756:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st757
-		case 110:
+		case 101:
 			goto st757
 		}
-		goto tr417
+		goto tr418
 	st757:
 		if p++; p == pe {
 			goto _test_eof757
 		}
 	st_case_757:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st758
-		case 116:
+		case 110:
 			goto st758
 		}
-		goto tr417
+		goto tr418
 	st758:
 		if p++; p == pe {
 			goto _test_eof758
 		}
 	st_case_758:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st759
-		case 105:
+		case 116:
 			goto st759
 		}
-		goto tr417
+		goto tr418
 	st759:
 		if p++; p == pe {
 			goto _test_eof759
 		}
 	st_case_759:
 		switch data[p] {
-		case 67:
+		case 73:
 			goto st760
-		case 99:
+		case 105:
 			goto st760
 		}
-		goto tr417
+		goto tr418
 	st760:
 		if p++; p == pe {
 			goto _test_eof760
 		}
 	st_case_760:
 		switch data[p] {
-		case 65:
+		case 67:
 			goto st761
-		case 97:
+		case 99:
 			goto st761
 		}
-		goto tr417
+		goto tr418
 	st761:
 		if p++; p == pe {
 			goto _test_eof761
 		}
 	st_case_761:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st762
-		case 116:
+		case 97:
 			goto st762
 		}
-		goto tr417
+		goto tr418
 	st762:
 		if p++; p == pe {
 			goto _test_eof762
 		}
 	st_case_762:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st763
-		case 101:
+		case 116:
 			goto st763
 		}
-		goto tr417
+		goto tr418
 	st763:
 		if p++; p == pe {
 			goto _test_eof763
 		}
 	st_case_763:
 		switch data[p] {
-		case 9:
-			goto tr1000
-		case 32:
-			goto tr1000
-		case 58:
-			goto tr1001
+		case 69:
+			goto st764
+		case 101:
+			goto st764
 		}
-		goto tr417
+		goto tr418
 	st764:
 		if p++; p == pe {
 			goto _test_eof764
 		}
 	st_case_764:
-		if data[p] == 10 {
+		switch data[p] {
+		case 9:
+			goto tr1001
+		case 32:
+			goto tr1001
+		case 58:
 			goto tr1002
 		}
-		goto st0
+		goto tr418
 	st_out:
 	_test_eof2: cs = 2; goto _test_eof
 	_test_eof3: cs = 3; goto _test_eof
@@ -17369,10 +17362,10 @@ tr754:
 	_test_eof279: cs = 279; goto _test_eof
 	_test_eof280: cs = 280; goto _test_eof
 	_test_eof281: cs = 281; goto _test_eof
+	_test_eof781: cs = 781; goto _test_eof
 	_test_eof282: cs = 282; goto _test_eof
 	_test_eof283: cs = 283; goto _test_eof
 	_test_eof284: cs = 284; goto _test_eof
-	_test_eof781: cs = 781; goto _test_eof
 	_test_eof285: cs = 285; goto _test_eof
 	_test_eof286: cs = 286; goto _test_eof
 	_test_eof287: cs = 287; goto _test_eof
@@ -17857,14 +17850,14 @@ tr754:
 	_test_eof: {}
 	if p == eof {
 		switch cs {
-		case 281, 282, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 370, 371, 372, 373, 374, 375, 385, 386, 387, 388, 389, 390, 391, 392, 393, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 441, 442, 443, 444, 445, 446, 447, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 512, 513, 514, 515, 516, 517, 518, 519, 520, 521, 522, 523, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 543, 544, 545, 546, 547, 548, 549, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 728, 729, 730, 731, 732, 733, 734, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756, 757, 758, 759, 760, 761, 762, 763:
+		case 282, 283, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 371, 372, 373, 374, 375, 376, 386, 387, 388, 389, 390, 391, 392, 393, 394, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 435, 442, 443, 444, 445, 446, 447, 448, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 483, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 513, 514, 515, 516, 517, 518, 519, 520, 521, 522, 523, 524, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 543, 544, 545, 546, 547, 548, 549, 550, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 728, 729, 730, 731, 732, 733, 734, 735, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756, 757, 758, 759, 760, 761, 762, 763, 764:
 //line sip.rl:171
 
 	p = ( mark) - 1
 
 	{goto st273 }
 
-//line msg_parse.go:17859
+//line msg_parse.go:17852
 		}
 	}
 
diff --git a/sip/sip.rl b/sip/sip.rl
index 1b2709e..947346d 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -535,7 +535,7 @@ sheader  = cheader <: CRLF @goto_header
          | sname $!gxh HCOLON <: any @hold @goto_value
          | ("Via"i | "v"i) $!gxh HCOLON <: any @ViaNew @hold @goto_via
          | ("Content-Type"i | "c"i) $!gxh HCOLON <: any @hold @goto_ctype;
-header  := CRLF @break
+header  := CR LF @break
          | tokenc @mark @hold sheader;
 
 # Start Line Parsing
-- 
2.43.0


From c9c787357392238d8b718d98ac34599bfb5964e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 39/58] fix: compact Content-Length clobbered Max-Forwards,
 Expires and Min-Expires

---
 sip/msg_parse.go | 2863 ++++++++++++++++++++++------------------------
 sip/sip.rl       |    6 +-
 2 files changed, 1348 insertions(+), 1521 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index 00b37cc..a3bd9c9 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -30,7 +30,7 @@ import (
 
 //line msg_parse.go:28
 const msg_start int = 1
-const msg_first_final int = 765
+const msg_first_final int = 758
 const msg_error int = 0
 
 const msg_en_ctype int = 34
@@ -116,8 +116,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_12
 	case 13:
 		goto st_case_13
-	case 765:
-		goto st_case_765
+	case 758:
+		goto st_case_758
 	case 14:
 		goto st_case_14
 	case 15:
@@ -180,8 +180,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_43
 	case 44:
 		goto st_case_44
-	case 766:
-		goto st_case_766
+	case 759:
+		goto st_case_759
 	case 45:
 		goto st_case_45
 	case 46:
@@ -236,8 +236,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_70
 	case 71:
 		goto st_case_71
-	case 767:
-		goto st_case_767
+	case 760:
+		goto st_case_760
 	case 72:
 		goto st_case_72
 	case 73:
@@ -324,8 +324,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_113
 	case 114:
 		goto st_case_114
-	case 768:
-		goto st_case_768
+	case 761:
+		goto st_case_761
 	case 115:
 		goto st_case_115
 	case 116:
@@ -410,8 +410,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_155
 	case 156:
 		goto st_case_156
-	case 769:
-		goto st_case_769
+	case 762:
+		goto st_case_762
 	case 157:
 		goto st_case_157
 	case 158:
@@ -490,8 +490,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_194
 	case 195:
 		goto st_case_195
-	case 770:
-		goto st_case_770
+	case 763:
+		goto st_case_763
 	case 196:
 		goto st_case_196
 	case 197:
@@ -570,8 +570,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_233
 	case 234:
 		goto st_case_234
-	case 771:
-		goto st_case_771
+	case 764:
+		goto st_case_764
 	case 235:
 		goto st_case_235
 	case 236:
@@ -596,34 +596,34 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_245
 	case 246:
 		goto st_case_246
-	case 772:
-		goto st_case_772
+	case 765:
+		goto st_case_765
 	case 247:
 		goto st_case_247
 	case 248:
 		goto st_case_248
 	case 249:
 		goto st_case_249
-	case 773:
-		goto st_case_773
+	case 766:
+		goto st_case_766
 	case 250:
 		goto st_case_250
 	case 251:
 		goto st_case_251
-	case 774:
-		goto st_case_774
+	case 767:
+		goto st_case_767
 	case 252:
 		goto st_case_252
 	case 253:
 		goto st_case_253
 	case 254:
 		goto st_case_254
-	case 775:
-		goto st_case_775
-	case 776:
-		goto st_case_776
-	case 777:
-		goto st_case_777
+	case 768:
+		goto st_case_768
+	case 769:
+		goto st_case_769
+	case 770:
+		goto st_case_770
 	case 255:
 		goto st_case_255
 	case 256:
@@ -632,8 +632,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_257
 	case 258:
 		goto st_case_258
-	case 778:
-		goto st_case_778
+	case 771:
+		goto st_case_771
 	case 259:
 		goto st_case_259
 	case 260:
@@ -658,8 +658,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_269
 	case 270:
 		goto st_case_270
-	case 779:
-		goto st_case_779
+	case 772:
+		goto st_case_772
 	case 271:
 		goto st_case_271
 	case 272:
@@ -672,8 +672,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_275
 	case 276:
 		goto st_case_276
-	case 780:
-		goto st_case_780
+	case 773:
+		goto st_case_773
 	case 277:
 		goto st_case_277
 	case 278:
@@ -684,8 +684,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_280
 	case 281:
 		goto st_case_281
-	case 781:
-		goto st_case_781
+	case 774:
+		goto st_case_774
 	case 282:
 		goto st_case_282
 	case 283:
@@ -1638,20 +1638,6 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_756
 	case 757:
 		goto st_case_757
-	case 758:
-		goto st_case_758
-	case 759:
-		goto st_case_759
-	case 760:
-		goto st_case_760
-	case 761:
-		goto st_case_761
-	case 762:
-		goto st_case_762
-	case 763:
-		goto st_case_763
-	case 764:
-		goto st_case_764
 	}
 	goto st_out
 	st_case_1:
@@ -1698,7 +1684,7 @@ tr418:
 	{goto st273 }
 
 	goto st0
-//line msg_parse.go:1693
+//line msg_parse.go:1679
 st_case_0:
 	st0:
 		cs = 0
@@ -1714,7 +1700,7 @@ tr0:
 			goto _test_eof2
 		}
 	st_case_2:
-//line msg_parse.go:1709
+//line msg_parse.go:1695
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -1761,7 +1747,7 @@ tr3:
 			goto _test_eof3
 		}
 	st_case_3:
-//line msg_parse.go:1756
+//line msg_parse.go:1742
 		if data[p] == 32 {
 			goto st0
 		}
@@ -1777,7 +1763,7 @@ tr5:
 			goto _test_eof4
 		}
 	st_case_4:
-//line msg_parse.go:1772
+//line msg_parse.go:1758
 		if data[p] == 32 {
 			goto tr7
 		}
@@ -1794,7 +1780,7 @@ tr7:
 			goto _test_eof5
 		}
 	st_case_5:
-//line msg_parse.go:1789
+//line msg_parse.go:1775
 		if data[p] == 83 {
 			goto st6
 		}
@@ -1846,7 +1832,7 @@ tr12:
 			goto _test_eof10
 		}
 	st_case_10:
-//line msg_parse.go:1841
+//line msg_parse.go:1827
 		if data[p] == 46 {
 			goto st11
 		}
@@ -1874,7 +1860,7 @@ tr14:
 			goto _test_eof12
 		}
 	st_case_12:
-//line msg_parse.go:1869
+//line msg_parse.go:1855
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -1910,7 +1896,7 @@ tr43:
 			goto _test_eof13
 		}
 	st_case_13:
-//line msg_parse.go:1905
+//line msg_parse.go:1891
 		if data[p] == 10 {
 			goto tr16
 		}
@@ -1918,13 +1904,13 @@ tr43:
 tr16:
 //line sip.rl:257
  {goto st280 } 
-	goto st765
-	st765:
+	goto st758
+	st758:
 		if p++; p == pe {
-			goto _test_eof765
+			goto _test_eof758
 		}
-	st_case_765:
-//line msg_parse.go:1919
+	st_case_758:
+//line msg_parse.go:1905
 		goto st0
 tr2:
 //line sip.rl:80
@@ -1937,7 +1923,7 @@ tr2:
 			goto _test_eof14
 		}
 	st_case_14:
-//line msg_parse.go:1932
+//line msg_parse.go:1918
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -2074,7 +2060,7 @@ tr20:
 			goto _test_eof18
 		}
 	st_case_18:
-//line msg_parse.go:2069
+//line msg_parse.go:2055
 		if data[p] == 46 {
 			goto st19
 		}
@@ -2102,7 +2088,7 @@ tr22:
 			goto _test_eof20
 		}
 	st_case_20:
-//line msg_parse.go:2097
+//line msg_parse.go:2083
 		if data[p] == 32 {
 			goto st21
 		}
@@ -2130,7 +2116,7 @@ tr24:
 			goto _test_eof22
 		}
 	st_case_22:
-//line msg_parse.go:2125
+//line msg_parse.go:2111
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr25
 		}
@@ -2146,7 +2132,7 @@ tr25:
 			goto _test_eof23
 		}
 	st_case_23:
-//line msg_parse.go:2141
+//line msg_parse.go:2127
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr26
 		}
@@ -2162,7 +2148,7 @@ tr26:
 			goto _test_eof24
 		}
 	st_case_24:
-//line msg_parse.go:2157
+//line msg_parse.go:2143
 		if data[p] == 32 {
 			goto st25
 		}
@@ -2265,7 +2251,7 @@ tr45:
 			goto _test_eof26
 		}
 	st_case_26:
-//line msg_parse.go:2260
+//line msg_parse.go:2246
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2339,7 +2325,7 @@ tr29:
 			goto _test_eof27
 		}
 	st_case_27:
-//line msg_parse.go:2334
+//line msg_parse.go:2320
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2364,7 +2350,7 @@ tr44:
 			goto _test_eof28
 		}
 	st_case_28:
-//line msg_parse.go:2359
+//line msg_parse.go:2345
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2401,7 +2387,7 @@ tr38:
 			goto _test_eof29
 		}
 	st_case_29:
-//line msg_parse.go:2396
+//line msg_parse.go:2382
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr36
 		}
@@ -2429,7 +2415,7 @@ tr39:
 			goto _test_eof30
 		}
 	st_case_30:
-//line msg_parse.go:2424
+//line msg_parse.go:2410
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr38
 		}
@@ -2457,7 +2443,7 @@ tr40:
 			goto _test_eof31
 		}
 	st_case_31:
-//line msg_parse.go:2452
+//line msg_parse.go:2438
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr39
 		}
@@ -2485,7 +2471,7 @@ tr41:
 			goto _test_eof32
 		}
 	st_case_32:
-//line msg_parse.go:2480
+//line msg_parse.go:2466
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr40
 		}
@@ -2513,7 +2499,7 @@ tr42:
 			goto _test_eof33
 		}
 	st_case_33:
-//line msg_parse.go:2508
+//line msg_parse.go:2494
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr41
 		}
@@ -2567,7 +2553,7 @@ tr46:
 			goto _test_eof35
 		}
 	st_case_35:
-//line msg_parse.go:2562
+//line msg_parse.go:2548
 		switch data[p] {
 		case 33:
 			goto st35
@@ -2702,7 +2688,7 @@ tr50:
 			goto _test_eof38
 		}
 	st_case_38:
-//line msg_parse.go:2697
+//line msg_parse.go:2683
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2732,7 +2718,7 @@ tr51:
 			goto _test_eof39
 		}
 	st_case_39:
-//line msg_parse.go:2727
+//line msg_parse.go:2713
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2974,7 +2960,7 @@ tr52:
 			goto _test_eof44
 		}
 	st_case_44:
-//line msg_parse.go:2969
+//line msg_parse.go:2955
 		if data[p] == 10 {
 			goto tr66
 		}
@@ -2982,13 +2968,13 @@ tr52:
 tr66:
 //line sip.rl:257
  {goto st280 } 
-	goto st766
-	st766:
+	goto st759
+	st759:
 		if p++; p == pe {
-			goto _test_eof766
+			goto _test_eof759
 		}
-	st_case_766:
-//line msg_parse.go:2983
+	st_case_759:
+//line msg_parse.go:2969
 		goto st0
 tr53:
 //line sip.rl:228
@@ -3001,7 +2987,7 @@ tr53:
 			goto _test_eof45
 		}
 	st_case_45:
-//line msg_parse.go:2996
+//line msg_parse.go:2982
 		if data[p] == 10 {
 			goto st46
 		}
@@ -3104,7 +3090,7 @@ tr78:
 			goto _test_eof49
 		}
 	st_case_49:
-//line msg_parse.go:3099
+//line msg_parse.go:3085
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3160,7 +3146,7 @@ tr70:
 			goto _test_eof50
 		}
 	st_case_50:
-//line msg_parse.go:3155
+//line msg_parse.go:3141
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3192,7 +3178,7 @@ tr71:
 			goto _test_eof51
 		}
 	st_case_51:
-//line msg_parse.go:3187
+//line msg_parse.go:3173
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -3229,7 +3215,7 @@ tr81:
 			goto _test_eof52
 		}
 	st_case_52:
-//line msg_parse.go:3224
+//line msg_parse.go:3210
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr78
 		}
@@ -3257,7 +3243,7 @@ tr82:
 			goto _test_eof53
 		}
 	st_case_53:
-//line msg_parse.go:3252
+//line msg_parse.go:3238
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr81
 		}
@@ -3285,7 +3271,7 @@ tr83:
 			goto _test_eof54
 		}
 	st_case_54:
-//line msg_parse.go:3280
+//line msg_parse.go:3266
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr82
 		}
@@ -3313,7 +3299,7 @@ tr84:
 			goto _test_eof55
 		}
 	st_case_55:
-//line msg_parse.go:3308
+//line msg_parse.go:3294
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr83
 		}
@@ -3341,7 +3327,7 @@ tr85:
 			goto _test_eof56
 		}
 	st_case_56:
-//line msg_parse.go:3336
+//line msg_parse.go:3322
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr84
 		}
@@ -3369,7 +3355,7 @@ tr86:
 			goto _test_eof57
 		}
 	st_case_57:
-//line msg_parse.go:3364
+//line msg_parse.go:3350
 		if data[p] == 10 {
 			goto tr87
 		}
@@ -3386,7 +3372,7 @@ tr87:
 			goto _test_eof58
 		}
 	st_case_58:
-//line msg_parse.go:3381
+//line msg_parse.go:3367
 		switch data[p] {
 		case 9:
 			goto tr78
@@ -3610,7 +3596,7 @@ tr94:
 			goto _test_eof69
 		}
 	st_case_69:
-//line msg_parse.go:3605
+//line msg_parse.go:3591
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3671,7 +3657,7 @@ tr95:
 			goto _test_eof70
 		}
 	st_case_70:
-//line msg_parse.go:3666
+//line msg_parse.go:3652
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3705,7 +3691,7 @@ tr97:
 			goto _test_eof71
 		}
 	st_case_71:
-//line msg_parse.go:3700
+//line msg_parse.go:3686
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3754,7 +3740,7 @@ tr107:
 
 //line sip.rl:259
  {goto st103 } 
-	goto st767
+	goto st760
 tr111:
 //line sip.rl:167
 
@@ -3771,7 +3757,7 @@ tr111:
 
 //line sip.rl:260
  {goto st68 } 
-	goto st767
+	goto st760
 tr123:
 //line sip.rl:167
 
@@ -3785,13 +3771,13 @@ tr123:
 
 //line sip.rl:257
  {goto st280 } 
-	goto st767
-	st767:
+	goto st760
+	st760:
 		if p++; p == pe {
-			goto _test_eof767
+			goto _test_eof760
 		}
-	st_case_767:
-//line msg_parse.go:3786
+	st_case_760:
+//line msg_parse.go:3772
 		goto st0
 	st72:
 		if p++; p == pe {
@@ -3837,7 +3823,7 @@ tr98:
 			goto _test_eof75
 		}
 	st_case_75:
-//line msg_parse.go:3832
+//line msg_parse.go:3818
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3908,7 +3894,7 @@ tr99:
 			goto _test_eof79
 		}
 	st_case_79:
-//line msg_parse.go:3903
+//line msg_parse.go:3889
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3971,7 +3957,7 @@ tr115:
 			goto _test_eof80
 		}
 	st_case_80:
-//line msg_parse.go:3966
+//line msg_parse.go:3952
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4094,7 +4080,7 @@ tr100:
 			goto _test_eof85
 		}
 	st_case_85:
-//line msg_parse.go:4089
+//line msg_parse.go:4075
 		if data[p] == 10 {
 			goto tr123
 		}
@@ -4171,7 +4157,7 @@ tr133:
 			goto _test_eof87
 		}
 	st_case_87:
-//line msg_parse.go:4166
+//line msg_parse.go:4152
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4227,7 +4213,7 @@ tr125:
 			goto _test_eof88
 		}
 	st_case_88:
-//line msg_parse.go:4222
+//line msg_parse.go:4208
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4261,7 +4247,7 @@ tr126:
 			goto _test_eof89
 		}
 	st_case_89:
-//line msg_parse.go:4256
+//line msg_parse.go:4242
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -4298,7 +4284,7 @@ tr136:
 			goto _test_eof90
 		}
 	st_case_90:
-//line msg_parse.go:4293
+//line msg_parse.go:4279
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr133
 		}
@@ -4326,7 +4312,7 @@ tr137:
 			goto _test_eof91
 		}
 	st_case_91:
-//line msg_parse.go:4321
+//line msg_parse.go:4307
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr136
 		}
@@ -4354,7 +4340,7 @@ tr138:
 			goto _test_eof92
 		}
 	st_case_92:
-//line msg_parse.go:4349
+//line msg_parse.go:4335
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr137
 		}
@@ -4382,7 +4368,7 @@ tr139:
 			goto _test_eof93
 		}
 	st_case_93:
-//line msg_parse.go:4377
+//line msg_parse.go:4363
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr138
 		}
@@ -4410,7 +4396,7 @@ tr140:
 			goto _test_eof94
 		}
 	st_case_94:
-//line msg_parse.go:4405
+//line msg_parse.go:4391
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr139
 		}
@@ -4438,7 +4424,7 @@ tr141:
 			goto _test_eof95
 		}
 	st_case_95:
-//line msg_parse.go:4433
+//line msg_parse.go:4419
 		if data[p] == 10 {
 			goto tr142
 		}
@@ -4455,7 +4441,7 @@ tr142:
 			goto _test_eof96
 		}
 	st_case_96:
-//line msg_parse.go:4450
+//line msg_parse.go:4436
 		switch data[p] {
 		case 9:
 			goto tr133
@@ -4541,7 +4527,7 @@ tr101:
 			goto _test_eof100
 		}
 	st_case_100:
-//line msg_parse.go:4536
+//line msg_parse.go:4522
 		if data[p] == 10 {
 			goto st101
 		}
@@ -4625,7 +4611,7 @@ tr147:
 			goto _test_eof104
 		}
 	st_case_104:
-//line msg_parse.go:4620
+//line msg_parse.go:4606
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4680,7 +4666,7 @@ tr148:
 			goto _test_eof105
 		}
 	st_case_105:
-//line msg_parse.go:4675
+//line msg_parse.go:4661
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4710,7 +4696,7 @@ tr150:
 			goto _test_eof106
 		}
 	st_case_106:
-//line msg_parse.go:4705
+//line msg_parse.go:4691
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4768,7 +4754,7 @@ tr155:
 			goto _test_eof107
 		}
 	st_case_107:
-//line msg_parse.go:4763
+//line msg_parse.go:4749
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4823,7 +4809,7 @@ tr157:
 			goto _test_eof108
 		}
 	st_case_108:
-//line msg_parse.go:4818
+//line msg_parse.go:4804
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4853,7 +4839,7 @@ tr159:
 			goto _test_eof109
 		}
 	st_case_109:
-//line msg_parse.go:4848
+//line msg_parse.go:4834
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4911,7 +4897,7 @@ tr164:
 			goto _test_eof110
 		}
 	st_case_110:
-//line msg_parse.go:4906
+//line msg_parse.go:4892
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4969,7 +4955,7 @@ tr166:
 			goto _test_eof111
 		}
 	st_case_111:
-//line msg_parse.go:4964
+//line msg_parse.go:4950
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5016,7 +5002,7 @@ tr170:
 			goto _test_eof112
 		}
 	st_case_112:
-//line msg_parse.go:5011
+//line msg_parse.go:4997
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5069,7 +5055,7 @@ tr173:
 			goto _test_eof113
 		}
 	st_case_113:
-//line msg_parse.go:5064
+//line msg_parse.go:5050
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5103,7 +5089,7 @@ tr174:
 			goto _test_eof114
 		}
 	st_case_114:
-//line msg_parse.go:5098
+//line msg_parse.go:5084
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5148,7 +5134,7 @@ tr185:
 
 //line sip.rl:259
  {goto st103 } 
-	goto st768
+	goto st761
 tr194:
 //line sip.rl:72
 
@@ -5161,7 +5147,7 @@ tr194:
 
 //line sip.rl:260
  {goto st68 } 
-	goto st768
+	goto st761
 tr200:
 //line sip.rl:141
 
@@ -5171,13 +5157,13 @@ tr200:
 
 //line sip.rl:257
  {goto st280 } 
-	goto st768
-	st768:
+	goto st761
+	st761:
 		if p++; p == pe {
-			goto _test_eof768
+			goto _test_eof761
 		}
-	st_case_768:
-//line msg_parse.go:5172
+	st_case_761:
+//line msg_parse.go:5158
 		goto st0
 	st115:
 		if p++; p == pe {
@@ -5223,7 +5209,7 @@ tr176:
 			goto _test_eof118
 		}
 	st_case_118:
-//line msg_parse.go:5218
+//line msg_parse.go:5204
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5254,7 +5240,7 @@ tr189:
 			goto _test_eof119
 		}
 	st_case_119:
-//line msg_parse.go:5249
+//line msg_parse.go:5235
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5316,7 +5302,7 @@ tr177:
 			goto _test_eof121
 		}
 	st_case_121:
-//line msg_parse.go:5311
+//line msg_parse.go:5297
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5424,7 +5410,7 @@ tr178:
 			goto _test_eof128
 		}
 	st_case_128:
-//line msg_parse.go:5419
+//line msg_parse.go:5405
 		if data[p] == 10 {
 			goto tr200
 		}
@@ -5476,7 +5462,7 @@ tr179:
 			goto _test_eof132
 		}
 	st_case_132:
-//line msg_parse.go:5471
+//line msg_parse.go:5457
 		if data[p] == 10 {
 			goto st133
 		}
@@ -5543,7 +5529,7 @@ tr205:
 			goto _test_eof136
 		}
 	st_case_136:
-//line msg_parse.go:5538
+//line msg_parse.go:5524
 		switch data[p] {
 		case 46:
 			goto st136
@@ -5574,7 +5560,7 @@ tr207:
 			goto _test_eof137
 		}
 	st_case_137:
-//line msg_parse.go:5569
+//line msg_parse.go:5555
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5610,7 +5596,7 @@ tr168:
 			goto _test_eof138
 		}
 	st_case_138:
-//line msg_parse.go:5605
+//line msg_parse.go:5591
 		if data[p] == 10 {
 			goto st139
 		}
@@ -5732,7 +5718,7 @@ tr160:
 			goto _test_eof144
 		}
 	st_case_144:
-//line msg_parse.go:5727
+//line msg_parse.go:5713
 		if data[p] == 10 {
 			goto st145
 		}
@@ -5837,7 +5823,7 @@ tr151:
 			goto _test_eof150
 		}
 	st_case_150:
-//line msg_parse.go:5832
+//line msg_parse.go:5818
 		if data[p] == 10 {
 			goto st151
 		}
@@ -5921,7 +5907,7 @@ tr218:
 			goto _test_eof154
 		}
 	st_case_154:
-//line msg_parse.go:5916
+//line msg_parse.go:5902
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5982,7 +5968,7 @@ tr219:
 			goto _test_eof155
 		}
 	st_case_155:
-//line msg_parse.go:5977
+//line msg_parse.go:5963
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6016,7 +6002,7 @@ tr221:
 			goto _test_eof156
 		}
 	st_case_156:
-//line msg_parse.go:6011
+//line msg_parse.go:5997
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6061,7 +6047,7 @@ tr231:
 
 //line sip.rl:252
  {goto st256 } 
-	goto st769
+	goto st762
 tr235:
 //line sip.rl:210
 
@@ -6074,7 +6060,7 @@ tr235:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st769
+	goto st762
 tr247:
 //line sip.rl:210
 
@@ -6088,13 +6074,13 @@ tr247:
 
 //line sip.rl:257
  {goto st280 } 
-	goto st769
-	st769:
+	goto st762
+	st762:
 		if p++; p == pe {
-			goto _test_eof769
+			goto _test_eof762
 		}
-	st_case_769:
-//line msg_parse.go:6089
+	st_case_762:
+//line msg_parse.go:6075
 		goto st0
 	st157:
 		if p++; p == pe {
@@ -6140,7 +6126,7 @@ tr222:
 			goto _test_eof160
 		}
 	st_case_160:
-//line msg_parse.go:6135
+//line msg_parse.go:6121
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6211,7 +6197,7 @@ tr223:
 			goto _test_eof164
 		}
 	st_case_164:
-//line msg_parse.go:6206
+//line msg_parse.go:6192
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6274,7 +6260,7 @@ tr239:
 			goto _test_eof165
 		}
 	st_case_165:
-//line msg_parse.go:6269
+//line msg_parse.go:6255
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6397,7 +6383,7 @@ tr224:
 			goto _test_eof170
 		}
 	st_case_170:
-//line msg_parse.go:6392
+//line msg_parse.go:6378
 		if data[p] == 10 {
 			goto tr247
 		}
@@ -6474,7 +6460,7 @@ tr257:
 			goto _test_eof172
 		}
 	st_case_172:
-//line msg_parse.go:6469
+//line msg_parse.go:6455
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6530,7 +6516,7 @@ tr249:
 			goto _test_eof173
 		}
 	st_case_173:
-//line msg_parse.go:6525
+//line msg_parse.go:6511
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6564,7 +6550,7 @@ tr250:
 			goto _test_eof174
 		}
 	st_case_174:
-//line msg_parse.go:6559
+//line msg_parse.go:6545
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -6601,7 +6587,7 @@ tr260:
 			goto _test_eof175
 		}
 	st_case_175:
-//line msg_parse.go:6596
+//line msg_parse.go:6582
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr257
 		}
@@ -6629,7 +6615,7 @@ tr261:
 			goto _test_eof176
 		}
 	st_case_176:
-//line msg_parse.go:6624
+//line msg_parse.go:6610
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr260
 		}
@@ -6657,7 +6643,7 @@ tr262:
 			goto _test_eof177
 		}
 	st_case_177:
-//line msg_parse.go:6652
+//line msg_parse.go:6638
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr261
 		}
@@ -6685,7 +6671,7 @@ tr263:
 			goto _test_eof178
 		}
 	st_case_178:
-//line msg_parse.go:6680
+//line msg_parse.go:6666
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr262
 		}
@@ -6713,7 +6699,7 @@ tr264:
 			goto _test_eof179
 		}
 	st_case_179:
-//line msg_parse.go:6708
+//line msg_parse.go:6694
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr263
 		}
@@ -6741,7 +6727,7 @@ tr265:
 			goto _test_eof180
 		}
 	st_case_180:
-//line msg_parse.go:6736
+//line msg_parse.go:6722
 		if data[p] == 10 {
 			goto tr266
 		}
@@ -6758,7 +6744,7 @@ tr266:
 			goto _test_eof181
 		}
 	st_case_181:
-//line msg_parse.go:6753
+//line msg_parse.go:6739
 		switch data[p] {
 		case 9:
 			goto tr257
@@ -6844,7 +6830,7 @@ tr225:
 			goto _test_eof185
 		}
 	st_case_185:
-//line msg_parse.go:6839
+//line msg_parse.go:6825
 		if data[p] == 10 {
 			goto st186
 		}
@@ -6945,7 +6931,7 @@ tr330:
 			goto _test_eof189
 		}
 	st_case_189:
-//line msg_parse.go:6940
+//line msg_parse.go:6926
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6985,7 +6971,7 @@ tr331:
 			goto _test_eof190
 		}
 	st_case_190:
-//line msg_parse.go:6980
+//line msg_parse.go:6966
 		switch {
 		case data[p] > 90:
 			if 97 <= data[p] && data[p] <= 122 {
@@ -7006,7 +6992,7 @@ tr276:
 			goto _test_eof191
 		}
 	st_case_191:
-//line msg_parse.go:7001
+//line msg_parse.go:6987
 		switch data[p] {
 		case 43:
 			goto st191
@@ -7103,7 +7089,7 @@ tr280:
 			goto _test_eof194
 		}
 	st_case_194:
-//line msg_parse.go:7098
+//line msg_parse.go:7084
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7171,7 +7157,7 @@ tr286:
 
 //line sip.rl:252
  {goto st256 } 
-	goto st770
+	goto st763
 tr290:
 //line sip.rl:72
 
@@ -7180,7 +7166,7 @@ tr290:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st770
+	goto st763
 tr294:
 //line sip.rl:214
 
@@ -7190,13 +7176,13 @@ tr294:
 
 //line sip.rl:257
  {goto st280 } 
-	goto st770
-	st770:
+	goto st763
+	st763:
 		if p++; p == pe {
-			goto _test_eof770
+			goto _test_eof763
 		}
-	st_case_770:
-//line msg_parse.go:7191
+	st_case_763:
+//line msg_parse.go:7177
 		goto st0
 	st196:
 		if p++; p == pe {
@@ -7410,7 +7396,7 @@ tr332:
 			goto _test_eof210
 		}
 	st_case_210:
-//line msg_parse.go:7405
+//line msg_parse.go:7391
 		if data[p] == 10 {
 			goto st211
 		}
@@ -7452,7 +7438,7 @@ tr272:
 			goto _test_eof213
 		}
 	st_case_213:
-//line msg_parse.go:7447
+//line msg_parse.go:7433
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7514,7 +7500,7 @@ tr305:
 			goto _test_eof214
 		}
 	st_case_214:
-//line msg_parse.go:7509
+//line msg_parse.go:7495
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7578,7 +7564,7 @@ tr307:
 			goto _test_eof215
 		}
 	st_case_215:
-//line msg_parse.go:7573
+//line msg_parse.go:7559
 		if data[p] == 10 {
 			goto st216
 		}
@@ -7610,7 +7596,7 @@ tr310:
 			goto _test_eof217
 		}
 	st_case_217:
-//line msg_parse.go:7605
+//line msg_parse.go:7591
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7670,7 +7656,7 @@ tr273:
 			goto _test_eof218
 		}
 	st_case_218:
-//line msg_parse.go:7665
+//line msg_parse.go:7651
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7738,7 +7724,7 @@ tr321:
 			goto _test_eof219
 		}
 	st_case_219:
-//line msg_parse.go:7733
+//line msg_parse.go:7719
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7794,7 +7780,7 @@ tr313:
 			goto _test_eof220
 		}
 	st_case_220:
-//line msg_parse.go:7789
+//line msg_parse.go:7775
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7824,7 +7810,7 @@ tr314:
 			goto _test_eof221
 		}
 	st_case_221:
-//line msg_parse.go:7819
+//line msg_parse.go:7805
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -7861,7 +7847,7 @@ tr324:
 			goto _test_eof222
 		}
 	st_case_222:
-//line msg_parse.go:7856
+//line msg_parse.go:7842
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr321
 		}
@@ -7889,7 +7875,7 @@ tr325:
 			goto _test_eof223
 		}
 	st_case_223:
-//line msg_parse.go:7884
+//line msg_parse.go:7870
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr324
 		}
@@ -7917,7 +7903,7 @@ tr326:
 			goto _test_eof224
 		}
 	st_case_224:
-//line msg_parse.go:7912
+//line msg_parse.go:7898
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr325
 		}
@@ -7945,7 +7931,7 @@ tr327:
 			goto _test_eof225
 		}
 	st_case_225:
-//line msg_parse.go:7940
+//line msg_parse.go:7926
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr326
 		}
@@ -7973,7 +7959,7 @@ tr328:
 			goto _test_eof226
 		}
 	st_case_226:
-//line msg_parse.go:7968
+//line msg_parse.go:7954
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr327
 		}
@@ -8001,7 +7987,7 @@ tr329:
 			goto _test_eof227
 		}
 	st_case_227:
-//line msg_parse.go:7996
+//line msg_parse.go:7982
 		if data[p] == 10 {
 			goto tr333
 		}
@@ -8018,7 +8004,7 @@ tr333:
 			goto _test_eof228
 		}
 	st_case_228:
-//line msg_parse.go:8013
+//line msg_parse.go:7999
 		switch data[p] {
 		case 9:
 			goto tr321
@@ -8160,7 +8146,7 @@ tr337:
 			goto _test_eof233
 		}
 	st_case_233:
-//line msg_parse.go:8155
+//line msg_parse.go:8141
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8226,7 +8212,7 @@ tr346:
 
 //line sip.rl:252
  {goto st256 } 
-	goto st771
+	goto st764
 tr350:
 //line sip.rl:72
 
@@ -8235,7 +8221,7 @@ tr350:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st771
+	goto st764
 tr376:
 //line sip.rl:214
 
@@ -8245,13 +8231,13 @@ tr376:
 
 //line sip.rl:257
  {goto st280 } 
-	goto st771
-	st771:
+	goto st764
+	st764:
 		if p++; p == pe {
-			goto _test_eof771
+			goto _test_eof764
 		}
-	st_case_771:
-//line msg_parse.go:8246
+	st_case_764:
+//line msg_parse.go:8232
 		goto st0
 	st235:
 		if p++; p == pe {
@@ -8362,7 +8348,7 @@ tr341:
 			goto _test_eof242
 		}
 	st_case_242:
-//line msg_parse.go:8357
+//line msg_parse.go:8343
 		if data[p] == 10 {
 			goto st243
 		}
@@ -8407,7 +8393,7 @@ tr338:
 			goto _test_eof245
 		}
 	st_case_245:
-//line msg_parse.go:8402
+//line msg_parse.go:8388
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8473,7 +8459,7 @@ tr356:
 			goto _test_eof246
 		}
 	st_case_246:
-//line msg_parse.go:8468
+//line msg_parse.go:8454
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8518,13 +8504,13 @@ tr362:
 
 //line sip.rl:252
  {goto st256 } 
-	goto st772
-	st772:
+	goto st765
+	st765:
 		if p++; p == pe {
-			goto _test_eof772
+			goto _test_eof765
 		}
-	st_case_772:
-//line msg_parse.go:8519
+	st_case_765:
+//line msg_parse.go:8505
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8563,7 +8549,7 @@ tr360:
 			goto _test_eof247
 		}
 	st_case_247:
-//line msg_parse.go:8558
+//line msg_parse.go:8544
 		if data[p] == 10 {
 			goto st248
 		}
@@ -8610,7 +8596,7 @@ tr357:
 
 //line sip.rl:252
  {goto st256 } 
-	goto st773
+	goto st766
 tr367:
 //line sip.rl:72
 
@@ -8619,13 +8605,13 @@ tr367:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st773
-	st773:
+	goto st766
+	st766:
 		if p++; p == pe {
-			goto _test_eof773
+			goto _test_eof766
 		}
-	st_case_773:
-//line msg_parse.go:8620
+	st_case_766:
+//line msg_parse.go:8606
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8682,7 +8668,7 @@ tr339:
 			goto _test_eof250
 		}
 	st_case_250:
-//line msg_parse.go:8677
+//line msg_parse.go:8663
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8748,7 +8734,7 @@ tr366:
 			goto _test_eof251
 		}
 	st_case_251:
-//line msg_parse.go:8743
+//line msg_parse.go:8729
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8787,13 +8773,13 @@ tr372:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st774
-	st774:
+	goto st767
+	st767:
 		if p++; p == pe {
-			goto _test_eof774
+			goto _test_eof767
 		}
-	st_case_774:
-//line msg_parse.go:8788
+	st_case_767:
+//line msg_parse.go:8774
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8832,7 +8818,7 @@ tr370:
 			goto _test_eof252
 		}
 	st_case_252:
-//line msg_parse.go:8827
+//line msg_parse.go:8813
 		if data[p] == 10 {
 			goto st253
 		}
@@ -8878,13 +8864,13 @@ tr368:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st775
-	st775:
+	goto st768
+	st768:
 		if p++; p == pe {
-			goto _test_eof775
+			goto _test_eof768
 		}
-	st_case_775:
-//line msg_parse.go:8879
+	st_case_768:
+//line msg_parse.go:8865
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8957,13 +8943,13 @@ tr358:
 
 //line sip.rl:252
  {goto st256 } 
-	goto st776
-	st776:
+	goto st769
+	st769:
 		if p++; p == pe {
-			goto _test_eof776
+			goto _test_eof769
 		}
-	st_case_776:
-//line msg_parse.go:8958
+	st_case_769:
+//line msg_parse.go:8944
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9036,7 +9022,7 @@ tr359:
 
 //line sip.rl:252
  {goto st256 } 
-	goto st777
+	goto st770
 tr369:
 //line sip.rl:205
 
@@ -9050,13 +9036,13 @@ tr369:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st777
-	st777:
+	goto st770
+	st770:
 		if p++; p == pe {
-			goto _test_eof777
+			goto _test_eof770
 		}
-	st_case_777:
-//line msg_parse.go:9051
+	st_case_770:
+//line msg_parse.go:9037
 		if data[p] == 10 {
 			goto tr376
 		}
@@ -9073,7 +9059,7 @@ tr340:
 			goto _test_eof255
 		}
 	st_case_255:
-//line msg_parse.go:9068
+//line msg_parse.go:9054
 		if data[p] == 10 {
 			goto tr376
 		}
@@ -9135,7 +9121,7 @@ tr377:
 			goto _test_eof257
 		}
 	st_case_257:
-//line msg_parse.go:9130
+//line msg_parse.go:9116
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9247,7 +9233,7 @@ tr378:
 
 //line sip.rl:253
  {goto st188 } 
-	goto st778
+	goto st771
 tr383:
 //line sip.rl:189
 
@@ -9260,7 +9246,7 @@ tr383:
 
 //line sip.rl:253
  {goto st188 } 
-	goto st778
+	goto st771
 tr387:
 //line sip.rl:189
 
@@ -9273,13 +9259,13 @@ tr387:
 
 //line sip.rl:255
  {goto st229 } 
-	goto st778
-	st778:
+	goto st771
+	st771:
 		if p++; p == pe {
-			goto _test_eof778
+			goto _test_eof771
 		}
-	st_case_778:
-//line msg_parse.go:9274
+	st_case_771:
+//line msg_parse.go:9260
 		goto st0
 	st259:
 		if p++; p == pe {
@@ -9357,7 +9343,7 @@ tr379:
 			goto _test_eof262
 		}
 	st_case_262:
-//line msg_parse.go:9352
+//line msg_parse.go:9338
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9468,7 +9454,7 @@ tr388:
 			goto _test_eof264
 		}
 	st_case_264:
-//line msg_parse.go:9463
+//line msg_parse.go:9449
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9522,7 +9508,7 @@ tr389:
 			goto _test_eof265
 		}
 	st_case_265:
-//line msg_parse.go:9517
+//line msg_parse.go:9503
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st264
 		}
@@ -9538,7 +9524,7 @@ tr390:
 			goto _test_eof266
 		}
 	st_case_266:
-//line msg_parse.go:9533
+//line msg_parse.go:9519
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st265
 		}
@@ -9554,7 +9540,7 @@ tr391:
 			goto _test_eof267
 		}
 	st_case_267:
-//line msg_parse.go:9549
+//line msg_parse.go:9535
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st266
 		}
@@ -9570,7 +9556,7 @@ tr392:
 			goto _test_eof268
 		}
 	st_case_268:
-//line msg_parse.go:9565
+//line msg_parse.go:9551
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st267
 		}
@@ -9586,7 +9572,7 @@ tr393:
 			goto _test_eof269
 		}
 	st_case_269:
-//line msg_parse.go:9581
+//line msg_parse.go:9567
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st268
 		}
@@ -9602,7 +9588,7 @@ tr394:
 			goto _test_eof270
 		}
 	st_case_270:
-//line msg_parse.go:9597
+//line msg_parse.go:9583
 		if data[p] == 10 {
 			goto tr404
 		}
@@ -9619,13 +9605,13 @@ tr404:
 }
 //line sip.rl:257
  {goto st280 } 
-	goto st779
-	st779:
+	goto st772
+	st772:
 		if p++; p == pe {
-			goto _test_eof779
+			goto _test_eof772
 		}
-	st_case_779:
-//line msg_parse.go:9620
+	st_case_772:
+//line msg_parse.go:9606
 		goto st0
 tr395:
 //line sip.rl:80
@@ -9638,7 +9624,7 @@ tr395:
 			goto _test_eof271
 		}
 	st_case_271:
-//line msg_parse.go:9633
+//line msg_parse.go:9619
 		if data[p] == 10 {
 			goto st272
 		}
@@ -9748,7 +9734,7 @@ tr407:
 			goto _test_eof275
 		}
 	st_case_275:
-//line msg_parse.go:9743
+//line msg_parse.go:9729
 		switch data[p] {
 		case 9:
 			goto st275
@@ -9769,7 +9755,7 @@ tr408:
 			goto _test_eof276
 		}
 	st_case_276:
-//line msg_parse.go:9764
+//line msg_parse.go:9750
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9806,13 +9792,13 @@ value=nil
 
 //line sip.rl:258
  {goto st263 } 
-	goto st780
-	st780:
+	goto st773
+	st773:
 		if p++; p == pe {
-			goto _test_eof780
+			goto _test_eof773
 		}
-	st_case_780:
-//line msg_parse.go:9807
+	st_case_773:
+//line msg_parse.go:9793
 		goto st0
 	st277:
 		if p++; p == pe {
@@ -9899,13 +9885,13 @@ value=nil
 tr561:
 //line sip.rl:257
  {goto st280 } 
-	goto st781
+	goto st774
 tr417:
 //line sip.rl:76
 
-	{p++; cs = 781; goto _out }
+	{p++; cs = 774; goto _out }
 
-	goto st781
+	goto st774
 tr444:
 //line sip.rl:72
 
@@ -9914,7 +9900,7 @@ tr444:
 
 //line sip.rl:258
  {goto st263 } 
-	goto st781
+	goto st774
 tr543:
 //line sip.rl:72
 
@@ -9923,7 +9909,7 @@ tr543:
 
 //line sip.rl:256
  {goto st34 } 
-	goto st781
+	goto st774
 tr578:
 //line sip.rl:534
 value=nil
@@ -9934,8 +9920,8 @@ value=nil
 
 //line sip.rl:252
  {goto st256 } 
-	goto st781
-tr973:
+	goto st774
+tr965:
 //line sip.rl:137
 
 	via = new(Via)
@@ -9947,13 +9933,13 @@ tr973:
 
 //line sip.rl:259
  {goto st103 } 
-	goto st781
-	st781:
+	goto st774
+	st774:
 		if p++; p == pe {
-			goto _test_eof781
+			goto _test_eof774
 		}
-	st_case_781:
-//line msg_parse.go:9948
+	st_case_774:
+//line msg_parse.go:9934
 		goto st0
 tr416:
 //line sip.rl:80
@@ -9971,7 +9957,7 @@ tr416:
 			goto _test_eof282
 		}
 	st_case_282:
-//line msg_parse.go:9966
+//line msg_parse.go:9952
 		switch data[p] {
 		case 65:
 			goto st283
@@ -9990,25 +9976,25 @@ tr416:
 		case 75:
 			goto st505
 		case 76:
-			goto st506
+			goto st435
 		case 77:
-			goto st513
+			goto st506
 		case 79:
-			goto st557
+			goto st550
 		case 80:
-			goto st569
+			goto st562
 		case 82:
-			goto st627
+			goto st620
 		case 83:
-			goto st687
+			goto st680
 		case 84:
-			goto st705
+			goto st698
 		case 85:
-			goto st715
+			goto st708
 		case 86:
-			goto st735
+			goto st728
 		case 87:
-			goto st743
+			goto st736
 		case 97:
 			goto st283
 		case 98:
@@ -10026,25 +10012,25 @@ tr416:
 		case 107:
 			goto st505
 		case 108:
-			goto st506
+			goto st435
 		case 109:
-			goto st513
+			goto st506
 		case 111:
-			goto st557
+			goto st550
 		case 112:
-			goto st569
+			goto st562
 		case 114:
-			goto st627
+			goto st620
 		case 115:
-			goto st687
+			goto st680
 		case 116:
-			goto st705
+			goto st698
 		case 117:
-			goto st715
+			goto st708
 		case 118:
-			goto st735
+			goto st728
 		case 119:
-			goto st743
+			goto st736
 		}
 		goto tr418
 	st283:
@@ -10129,97 +10115,97 @@ tr618:
 //line sip.rl:460
 value=&msg.ContentLanguage
 	goto st284
-tr653:
+tr652:
 //line sip.rl:463
 value=&msg.Date
 	goto st284
-tr666:
+tr665:
 //line sip.rl:464
 value=&msg.ErrorInfo
 	goto st284
-tr671:
+tr670:
 //line sip.rl:465
 value=&msg.Event
 	goto st284
-tr700:
+tr699:
 //line sip.rl:466
 value=&msg.InReplyTo
 	goto st284
-tr702:
+tr701:
 //line sip.rl:480
 value=&msg.Supported
 	goto st284
-tr741:
+tr733:
 //line sip.rl:468
 value=&msg.MIMEVersion
 	goto st284
-tr769:
+tr761:
 //line sip.rl:469
 value=&msg.Organization
 	goto st284
-tr799:
+tr791:
 //line sip.rl:470
 value=&msg.Priority
 	goto st284
-tr818:
+tr810:
 //line sip.rl:471
 value=&msg.ProxyAuthenticate
 	goto st284
-tr828:
+tr820:
 //line sip.rl:472
 value=&msg.ProxyAuthorization
 	goto st284
-tr836:
+tr828:
 //line sip.rl:473
 value=&msg.ProxyRequire
 	goto st284
-tr838:
+tr830:
 //line sip.rl:474
 value=&msg.ReferTo
 	goto st284
-tr888:
+tr880:
 //line sip.rl:467
 value=&msg.ReplyTo
 	goto st284
-tr894:
+tr886:
 //line sip.rl:476
 value=&msg.Require
 	goto st284
-tr904:
+tr896:
 //line sip.rl:477
 value=&msg.RetryAfter
 	goto st284
-tr911:
+tr903:
 //line sip.rl:479
 value=&msg.Subject
 	goto st284
-tr919:
+tr911:
 //line sip.rl:478
 value=&msg.Server
 	goto st284
-tr943:
+tr935:
 //line sip.rl:481
 value=&msg.Timestamp
 	goto st284
-tr945:
+tr937:
 //line sip.rl:454
 value=&msg.Allow
 //line sip.rl:455
 value=&msg.AllowEvents
 	goto st284
-tr958:
+tr950:
 //line sip.rl:482
 value=&msg.Unsupported
 	goto st284
-tr968:
+tr960:
 //line sip.rl:483
 value=&msg.UserAgent
 	goto st284
-tr985:
+tr977:
 //line sip.rl:484
 value=&msg.Warning
 	goto st284
-tr1001:
+tr993:
 //line sip.rl:485
 value=&msg.WWWAuthenticate
 	goto st284
@@ -10228,7 +10214,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof284
 		}
 	st_case_284:
-//line msg_parse.go:10223
+//line msg_parse.go:10209
 		switch data[p] {
 		case 9:
 			goto st284
@@ -10294,97 +10280,97 @@ tr619:
 //line sip.rl:460
 value=&msg.ContentLanguage
 	goto st285
-tr654:
+tr653:
 //line sip.rl:463
 value=&msg.Date
 	goto st285
-tr667:
+tr666:
 //line sip.rl:464
 value=&msg.ErrorInfo
 	goto st285
-tr672:
+tr671:
 //line sip.rl:465
 value=&msg.Event
 	goto st285
-tr701:
+tr700:
 //line sip.rl:466
 value=&msg.InReplyTo
 	goto st285
-tr703:
+tr702:
 //line sip.rl:480
 value=&msg.Supported
 	goto st285
-tr742:
+tr734:
 //line sip.rl:468
 value=&msg.MIMEVersion
 	goto st285
-tr770:
+tr762:
 //line sip.rl:469
 value=&msg.Organization
 	goto st285
-tr800:
+tr792:
 //line sip.rl:470
 value=&msg.Priority
 	goto st285
-tr819:
+tr811:
 //line sip.rl:471
 value=&msg.ProxyAuthenticate
 	goto st285
-tr829:
+tr821:
 //line sip.rl:472
 value=&msg.ProxyAuthorization
 	goto st285
-tr837:
+tr829:
 //line sip.rl:473
 value=&msg.ProxyRequire
 	goto st285
-tr839:
+tr831:
 //line sip.rl:474
 value=&msg.ReferTo
 	goto st285
-tr889:
+tr881:
 //line sip.rl:467
 value=&msg.ReplyTo
 	goto st285
-tr895:
+tr887:
 //line sip.rl:476
 value=&msg.Require
 	goto st285
-tr905:
+tr897:
 //line sip.rl:477
 value=&msg.RetryAfter
 	goto st285
-tr912:
+tr904:
 //line sip.rl:479
 value=&msg.Subject
 	goto st285
-tr920:
+tr912:
 //line sip.rl:478
 value=&msg.Server
 	goto st285
-tr944:
+tr936:
 //line sip.rl:481
 value=&msg.Timestamp
 	goto st285
-tr946:
+tr938:
 //line sip.rl:454
 value=&msg.Allow
 //line sip.rl:455
 value=&msg.AllowEvents
 	goto st285
-tr959:
+tr951:
 //line sip.rl:482
 value=&msg.Unsupported
 	goto st285
-tr969:
+tr961:
 //line sip.rl:483
 value=&msg.UserAgent
 	goto st285
-tr986:
+tr978:
 //line sip.rl:484
 value=&msg.Warning
 	goto st285
-tr1002:
+tr994:
 //line sip.rl:485
 value=&msg.WWWAuthenticate
 	goto st285
@@ -10393,7 +10379,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof285
 		}
 	st_case_285:
-//line msg_parse.go:10388
+//line msg_parse.go:10374
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11658,7 +11644,7 @@ tr555:
 			goto _test_eof379
 		}
 	st_case_379:
-//line msg_parse.go:11653
+//line msg_parse.go:11639
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11802,7 +11788,7 @@ tr559:
 	msg.CallID = string(data[mark:p])
 
 	goto st382
-tr645:
+tr644:
 //line sip.rl:236
 
 	msg.CSeqMethod = string(data[mark:p])
@@ -11813,7 +11799,7 @@ tr645:
 			goto _test_eof382
 		}
 	st_case_382:
-//line msg_parse.go:11808
+//line msg_parse.go:11794
 		if data[p] == 10 {
 			goto tr561
 		}
@@ -12005,27 +11991,27 @@ tr574:
 //line sip.rl:437
 addrp=lastAddr(&msg.Contact)
 	goto st395
-tr685:
+tr684:
 //line sip.rl:438
 addrp=lastAddr(&msg.From)
 	goto st395
-tr790:
+tr782:
 //line sip.rl:439
 addrp=lastAddr(&msg.PAssertedIdentity)
 	goto st395
-tr857:
+tr849:
 //line sip.rl:440
 addrp=lastAddr(&msg.RecordRoute)
 	goto st395
-tr881:
+tr873:
 //line sip.rl:441
 addrp=lastAddr(&msg.RemotePartyID)
 	goto st395
-tr909:
+tr901:
 //line sip.rl:442
 addrp=lastAddr(&msg.Route)
 	goto st395
-tr932:
+tr924:
 //line sip.rl:443
 addrp=lastAddr(&msg.To)
 	goto st395
@@ -12034,7 +12020,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof395
 		}
 	st_case_395:
-//line msg_parse.go:12029
+//line msg_parse.go:12015
 		switch data[p] {
 		case 9:
 			goto st395
@@ -12048,27 +12034,27 @@ tr575:
 //line sip.rl:437
 addrp=lastAddr(&msg.Contact)
 	goto st396
-tr686:
+tr685:
 //line sip.rl:438
 addrp=lastAddr(&msg.From)
 	goto st396
-tr791:
+tr783:
 //line sip.rl:439
 addrp=lastAddr(&msg.PAssertedIdentity)
 	goto st396
-tr858:
+tr850:
 //line sip.rl:440
 addrp=lastAddr(&msg.RecordRoute)
 	goto st396
-tr882:
+tr874:
 //line sip.rl:441
 addrp=lastAddr(&msg.RemotePartyID)
 	goto st396
-tr910:
+tr902:
 //line sip.rl:442
 addrp=lastAddr(&msg.Route)
 	goto st396
-tr933:
+tr925:
 //line sip.rl:443
 addrp=lastAddr(&msg.To)
 	goto st396
@@ -12077,7 +12063,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof396
 		}
 	st_case_396:
-//line msg_parse.go:12072
+//line msg_parse.go:12058
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12625,10 +12611,10 @@ addrp=lastAddr(&msg.To)
 			goto st439
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr626
+			goto tr625
 		}
 		goto st0
-tr626:
+tr625:
 //line sip.rl:493
 clen=0
 //line sip.rl:224
@@ -12636,7 +12622,7 @@ clen=0
 	clen = clen * 10 + (int(data[p]) - 0x30)
 
 	goto st438
-tr628:
+tr627:
 //line sip.rl:224
 
 	clen = clen * 10 + (int(data[p]) - 0x30)
@@ -12647,7 +12633,7 @@ tr628:
 			goto _test_eof438
 		}
 	st_case_438:
-//line msg_parse.go:12642
+//line msg_parse.go:12628
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12659,7 +12645,7 @@ tr628:
 			goto st382
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr628
+			goto tr627
 		}
 		goto st0
 	st439:
@@ -12695,7 +12681,7 @@ tr628:
 			goto st441
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr626
+			goto tr625
 		}
 		goto st0
 	st442:
@@ -12821,10 +12807,10 @@ tr628:
 			goto st457
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr639
+			goto tr638
 		}
 		goto st0
-tr639:
+tr638:
 //line sip.rl:232
 
 	msg.CSeq = msg.CSeq * 10 + (int(data[p]) - 0x30)
@@ -12835,7 +12821,7 @@ tr639:
 			goto _test_eof451
 		}
 	st_case_451:
-//line msg_parse.go:12830
+//line msg_parse.go:12816
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12852,7 +12838,7 @@ tr639:
 			goto st454
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr639
+			goto tr638
 		}
 		goto st0
 	st452:
@@ -12873,13 +12859,13 @@ tr639:
 		case 32:
 			goto st452
 		case 33:
-			goto tr643
+			goto tr642
 		case 37:
-			goto tr643
+			goto tr642
 		case 39:
-			goto tr643
+			goto tr642
 		case 126:
-			goto tr643
+			goto tr642
 		case 525:
 			goto st454
 		}
@@ -12888,25 +12874,25 @@ tr639:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto tr643
+					goto tr642
 				}
 			case _widec >= 42:
-				goto tr643
+				goto tr642
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr643
+					goto tr642
 				}
 			case _widec >= 65:
-				goto tr643
+				goto tr642
 			}
 		default:
-			goto tr643
+			goto tr642
 		}
 		goto st0
-tr643:
+tr642:
 //line sip.rl:80
 
 	mark = p
@@ -12917,7 +12903,7 @@ tr643:
 			goto _test_eof453
 		}
 	st_case_453:
-//line msg_parse.go:12912
+//line msg_parse.go:12898
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12935,7 +12921,7 @@ tr643:
 		case 126:
 			goto st453
 		case 269:
-			goto tr645
+			goto tr644
 		}
 		switch {
 		case _widec < 48:
@@ -12992,35 +12978,35 @@ tr643:
 		case 32:
 			goto st456
 		case 33:
-			goto tr643
+			goto tr642
 		case 37:
-			goto tr643
+			goto tr642
 		case 39:
-			goto tr643
+			goto tr642
 		case 126:
-			goto tr643
+			goto tr642
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr643
+					goto tr642
 				}
 			case data[p] >= 42:
-				goto tr643
+				goto tr642
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr643
+					goto tr642
 				}
 			case data[p] >= 65:
-				goto tr643
+				goto tr642
 			}
 		default:
-			goto tr643
+			goto tr642
 		}
 		goto st0
 	st457:
@@ -13056,7 +13042,7 @@ tr643:
 			goto st459
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr639
+			goto tr638
 		}
 		goto st0
 	st460:
@@ -13102,11 +13088,11 @@ tr643:
 	st_case_463:
 		switch data[p] {
 		case 9:
-			goto tr653
+			goto tr652
 		case 32:
-			goto tr653
+			goto tr652
 		case 58:
-			goto tr654
+			goto tr653
 		}
 		goto tr418
 	st464:
@@ -13235,11 +13221,11 @@ tr643:
 	st_case_473:
 		switch data[p] {
 		case 9:
-			goto tr666
+			goto tr665
 		case 32:
-			goto tr666
+			goto tr665
 		case 58:
-			goto tr667
+			goto tr666
 		}
 		goto tr418
 	st474:
@@ -13285,11 +13271,11 @@ tr643:
 	st_case_477:
 		switch data[p] {
 		case 9:
-			goto tr671
+			goto tr670
 		case 32:
-			goto tr671
+			goto tr670
 		case 58:
-			goto tr672
+			goto tr671
 		}
 		goto tr418
 	st478:
@@ -13401,10 +13387,10 @@ tr643:
 			goto st487
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr680
+			goto tr679
 		}
 		goto st0
-tr680:
+tr679:
 //line sip.rl:495
 msg.Expires=0
 //line sip.rl:240
@@ -13412,7 +13398,7 @@ msg.Expires=0
 	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
 
 	goto st486
-tr682:
+tr681:
 //line sip.rl:240
 
 	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
@@ -13423,7 +13409,7 @@ tr682:
 			goto _test_eof486
 		}
 	st_case_486:
-//line msg_parse.go:13418
+//line msg_parse.go:13404
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13435,7 +13421,7 @@ tr682:
 			goto st382
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr682
+			goto tr681
 		}
 		goto st0
 	st487:
@@ -13471,7 +13457,7 @@ tr682:
 			goto st489
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr680
+			goto tr679
 		}
 		goto st0
 	st490:
@@ -13481,11 +13467,11 @@ tr682:
 	st_case_490:
 		switch data[p] {
 		case 9:
-			goto tr685
+			goto tr684
 		case 32:
-			goto tr685
+			goto tr684
 		case 58:
-			goto tr686
+			goto tr685
 		case 82:
 			goto st491
 		case 114:
@@ -13523,11 +13509,11 @@ tr682:
 	st_case_493:
 		switch data[p] {
 		case 9:
-			goto tr685
+			goto tr684
 		case 32:
-			goto tr685
+			goto tr684
 		case 58:
-			goto tr686
+			goto tr685
 		}
 		goto tr418
 	st494:
@@ -13657,11 +13643,11 @@ tr682:
 	st_case_504:
 		switch data[p] {
 		case 9:
-			goto tr700
+			goto tr699
 		case 32:
-			goto tr700
+			goto tr699
 		case 58:
-			goto tr701
+			goto tr700
 		}
 		goto tr418
 	st505:
@@ -13671,11 +13657,11 @@ tr682:
 	st_case_505:
 		switch data[p] {
 		case 9:
-			goto tr702
+			goto tr701
 		case 32:
-			goto tr702
+			goto tr701
 		case 58:
-			goto tr703
+			goto tr702
 		}
 		goto tr418
 	st506:
@@ -13685,11 +13671,19 @@ tr682:
 	st_case_506:
 		switch data[p] {
 		case 9:
-			goto st507
+			goto tr574
 		case 32:
-			goto st507
+			goto tr574
 		case 58:
-			goto st508
+			goto tr575
+		case 65:
+			goto st507
+		case 73:
+			goto st524
+		case 97:
+			goto st507
+		case 105:
+			goto st524
 		}
 		goto tr418
 	st507:
@@ -13698,158 +13692,79 @@ tr682:
 		}
 	st_case_507:
 		switch data[p] {
-		case 9:
-			goto st507
-		case 32:
-			goto st507
-		case 58:
+		case 88:
+			goto st508
+		case 120:
 			goto st508
 		}
-		goto st0
+		goto tr418
 	st508:
 		if p++; p == pe {
 			goto _test_eof508
 		}
 	st_case_508:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st508
-		case 32:
-			goto st508
-		case 525:
-			goto st510
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr706
+		if data[p] == 45 {
+			goto st509
 		}
-		goto st0
-tr706:
-//line sip.rl:493
-clen=0
-//line sip.rl:224
-
-	clen = clen * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:495
-msg.Expires=0
-//line sip.rl:240
-
-	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:496
-msg.MaxForwards=0
-//line sip.rl:244
-
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:497
-msg.MinExpires=0
-//line sip.rl:248
-
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
-
-	goto st509
-tr708:
-//line sip.rl:224
-
-	clen = clen * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:240
-
-	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:244
-
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:248
-
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
-
-	goto st509
+		goto tr418
 	st509:
 		if p++; p == pe {
 			goto _test_eof509
 		}
 	st_case_509:
-//line msg_parse.go:13774
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		if _widec == 269 {
-			goto st382
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr708
+		switch data[p] {
+		case 70:
+			goto st510
+		case 102:
+			goto st510
 		}
-		goto st0
+		goto tr418
 	st510:
 		if p++; p == pe {
 			goto _test_eof510
 		}
 	st_case_510:
-		if data[p] == 10 {
+		switch data[p] {
+		case 79:
+			goto st511
+		case 111:
 			goto st511
 		}
-		goto st0
+		goto tr418
 	st511:
 		if p++; p == pe {
 			goto _test_eof511
 		}
 	st_case_511:
 		switch data[p] {
-		case 9:
+		case 82:
 			goto st512
-		case 32:
+		case 114:
 			goto st512
 		}
-		goto st0
+		goto tr418
 	st512:
 		if p++; p == pe {
 			goto _test_eof512
 		}
 	st_case_512:
 		switch data[p] {
-		case 9:
-			goto st512
-		case 32:
-			goto st512
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr706
+		case 87:
+			goto st513
+		case 119:
+			goto st513
 		}
-		goto st0
+		goto tr418
 	st513:
 		if p++; p == pe {
 			goto _test_eof513
 		}
 	st_case_513:
 		switch data[p] {
-		case 9:
-			goto tr574
-		case 32:
-			goto tr574
-		case 58:
-			goto tr575
 		case 65:
 			goto st514
-		case 73:
-			goto st531
 		case 97:
 			goto st514
-		case 105:
-			goto st531
 		}
 		goto tr418
 	st514:
@@ -13858,9 +13773,9 @@ tr708:
 		}
 	st_case_514:
 		switch data[p] {
-		case 88:
+		case 82:
 			goto st515
-		case 120:
+		case 114:
 			goto st515
 		}
 		goto tr418
@@ -13869,7 +13784,10 @@ tr708:
 			goto _test_eof515
 		}
 	st_case_515:
-		if data[p] == 45 {
+		switch data[p] {
+		case 68:
+			goto st516
+		case 100:
 			goto st516
 		}
 		goto tr418
@@ -13879,9 +13797,9 @@ tr708:
 		}
 	st_case_516:
 		switch data[p] {
-		case 70:
+		case 83:
 			goto st517
-		case 102:
+		case 115:
 			goto st517
 		}
 		goto tr418
@@ -13891,10 +13809,12 @@ tr708:
 		}
 	st_case_517:
 		switch data[p] {
-		case 79:
+		case 9:
 			goto st518
-		case 111:
+		case 32:
 			goto st518
+		case 58:
+			goto st519
 		}
 		goto tr418
 	st518:
@@ -13903,84 +13823,122 @@ tr708:
 		}
 	st_case_518:
 		switch data[p] {
-		case 82:
-			goto st519
-		case 114:
+		case 9:
+			goto st518
+		case 32:
+			goto st518
+		case 58:
 			goto st519
 		}
-		goto tr418
+		goto st0
 	st519:
 		if p++; p == pe {
 			goto _test_eof519
 		}
 	st_case_519:
-		switch data[p] {
-		case 87:
-			goto st520
-		case 119:
-			goto st520
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
 		}
-		goto tr418
+		switch _widec {
+		case 9:
+			goto st519
+		case 32:
+			goto st519
+		case 525:
+			goto st521
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr717
+		}
+		goto st0
+tr717:
+//line sip.rl:496
+msg.MaxForwards=0
+//line sip.rl:244
+
+	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
+
+	goto st520
+tr719:
+//line sip.rl:244
+
+	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
+
+	goto st520
 	st520:
 		if p++; p == pe {
 			goto _test_eof520
 		}
 	st_case_520:
-		switch data[p] {
-		case 65:
-			goto st521
-		case 97:
-			goto st521
+//line msg_parse.go:13869
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
 		}
-		goto tr418
+		if _widec == 269 {
+			goto st382
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr719
+		}
+		goto st0
 	st521:
 		if p++; p == pe {
 			goto _test_eof521
 		}
 	st_case_521:
-		switch data[p] {
-		case 82:
-			goto st522
-		case 114:
+		if data[p] == 10 {
 			goto st522
 		}
-		goto tr418
+		goto st0
 	st522:
 		if p++; p == pe {
 			goto _test_eof522
 		}
 	st_case_522:
 		switch data[p] {
-		case 68:
+		case 9:
 			goto st523
-		case 100:
+		case 32:
 			goto st523
 		}
-		goto tr418
+		goto st0
 	st523:
 		if p++; p == pe {
 			goto _test_eof523
 		}
 	st_case_523:
 		switch data[p] {
-		case 83:
-			goto st524
-		case 115:
-			goto st524
+		case 9:
+			goto st523
+		case 32:
+			goto st523
 		}
-		goto tr418
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr717
+		}
+		goto st0
 	st524:
 		if p++; p == pe {
 			goto _test_eof524
 		}
 	st_case_524:
 		switch data[p] {
-		case 9:
+		case 77:
 			goto st525
-		case 32:
+		case 78:
+			goto st535
+		case 109:
 			goto st525
-		case 58:
-			goto st526
+		case 110:
+			goto st535
 		}
 		goto tr418
 	st525:
@@ -13989,122 +13947,79 @@ tr708:
 		}
 	st_case_525:
 		switch data[p] {
-		case 9:
-			goto st525
-		case 32:
-			goto st525
-		case 58:
+		case 69:
+			goto st526
+		case 101:
 			goto st526
 		}
-		goto st0
+		goto tr418
 	st526:
 		if p++; p == pe {
 			goto _test_eof526
 		}
 	st_case_526:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st526
-		case 32:
-			goto st526
-		case 525:
-			goto st528
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr725
+		if data[p] == 45 {
+			goto st527
 		}
-		goto st0
-tr725:
-//line sip.rl:496
-msg.MaxForwards=0
-//line sip.rl:244
-
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
-
-	goto st527
-tr727:
-//line sip.rl:244
-
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
-
-	goto st527
+		goto tr418
 	st527:
 		if p++; p == pe {
 			goto _test_eof527
 		}
 	st_case_527:
-//line msg_parse.go:14035
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		if _widec == 269 {
-			goto st382
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr727
+		switch data[p] {
+		case 86:
+			goto st528
+		case 118:
+			goto st528
 		}
-		goto st0
+		goto tr418
 	st528:
 		if p++; p == pe {
 			goto _test_eof528
 		}
 	st_case_528:
-		if data[p] == 10 {
+		switch data[p] {
+		case 69:
+			goto st529
+		case 101:
 			goto st529
 		}
-		goto st0
+		goto tr418
 	st529:
 		if p++; p == pe {
 			goto _test_eof529
 		}
 	st_case_529:
 		switch data[p] {
-		case 9:
+		case 82:
 			goto st530
-		case 32:
+		case 114:
 			goto st530
 		}
-		goto st0
+		goto tr418
 	st530:
 		if p++; p == pe {
 			goto _test_eof530
 		}
 	st_case_530:
 		switch data[p] {
-		case 9:
-			goto st530
-		case 32:
-			goto st530
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr725
+		case 83:
+			goto st531
+		case 115:
+			goto st531
 		}
-		goto st0
+		goto tr418
 	st531:
 		if p++; p == pe {
 			goto _test_eof531
 		}
 	st_case_531:
 		switch data[p] {
-		case 77:
+		case 73:
 			goto st532
-		case 78:
-			goto st542
-		case 109:
+		case 105:
 			goto st532
-		case 110:
-			goto st542
 		}
 		goto tr418
 	st532:
@@ -14113,9 +14028,9 @@ tr727:
 		}
 	st_case_532:
 		switch data[p] {
-		case 69:
+		case 79:
 			goto st533
-		case 101:
+		case 111:
 			goto st533
 		}
 		goto tr418
@@ -14124,7 +14039,10 @@ tr727:
 			goto _test_eof533
 		}
 	st_case_533:
-		if data[p] == 45 {
+		switch data[p] {
+		case 78:
+			goto st534
+		case 110:
 			goto st534
 		}
 		goto tr418
@@ -14134,10 +14052,12 @@ tr727:
 		}
 	st_case_534:
 		switch data[p] {
-		case 86:
-			goto st535
-		case 118:
-			goto st535
+		case 9:
+			goto tr733
+		case 32:
+			goto tr733
+		case 58:
+			goto tr734
 		}
 		goto tr418
 	st535:
@@ -14145,10 +14065,7 @@ tr727:
 			goto _test_eof535
 		}
 	st_case_535:
-		switch data[p] {
-		case 69:
-			goto st536
-		case 101:
+		if data[p] == 45 {
 			goto st536
 		}
 		goto tr418
@@ -14158,9 +14075,9 @@ tr727:
 		}
 	st_case_536:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st537
-		case 114:
+		case 101:
 			goto st537
 		}
 		goto tr418
@@ -14170,9 +14087,9 @@ tr727:
 		}
 	st_case_537:
 		switch data[p] {
-		case 83:
+		case 88:
 			goto st538
-		case 115:
+		case 120:
 			goto st538
 		}
 		goto tr418
@@ -14182,9 +14099,9 @@ tr727:
 		}
 	st_case_538:
 		switch data[p] {
-		case 73:
+		case 80:
 			goto st539
-		case 105:
+		case 112:
 			goto st539
 		}
 		goto tr418
@@ -14194,9 +14111,9 @@ tr727:
 		}
 	st_case_539:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st540
-		case 111:
+		case 105:
 			goto st540
 		}
 		goto tr418
@@ -14206,9 +14123,9 @@ tr727:
 		}
 	st_case_540:
 		switch data[p] {
-		case 78:
+		case 82:
 			goto st541
-		case 110:
+		case 114:
 			goto st541
 		}
 		goto tr418
@@ -14218,12 +14135,10 @@ tr727:
 		}
 	st_case_541:
 		switch data[p] {
-		case 9:
-			goto tr741
-		case 32:
-			goto tr741
-		case 58:
-			goto tr742
+		case 69:
+			goto st542
+		case 101:
+			goto st542
 		}
 		goto tr418
 	st542:
@@ -14231,7 +14146,10 @@ tr727:
 			goto _test_eof542
 		}
 	st_case_542:
-		if data[p] == 45 {
+		switch data[p] {
+		case 83:
+			goto st543
+		case 115:
 			goto st543
 		}
 		goto tr418
@@ -14241,10 +14159,12 @@ tr727:
 		}
 	st_case_543:
 		switch data[p] {
-		case 69:
+		case 9:
 			goto st544
-		case 101:
+		case 32:
 			goto st544
+		case 58:
+			goto st545
 		}
 		goto tr418
 	st544:
@@ -14253,72 +14173,108 @@ tr727:
 		}
 	st_case_544:
 		switch data[p] {
-		case 88:
-			goto st545
-		case 120:
+		case 9:
+			goto st544
+		case 32:
+			goto st544
+		case 58:
 			goto st545
 		}
-		goto tr418
+		goto st0
 	st545:
 		if p++; p == pe {
 			goto _test_eof545
 		}
 	st_case_545:
-		switch data[p] {
-		case 80:
-			goto st546
-		case 112:
-			goto st546
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
 		}
-		goto tr418
+		switch _widec {
+		case 9:
+			goto st545
+		case 32:
+			goto st545
+		case 525:
+			goto st547
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr745
+		}
+		goto st0
+tr745:
+//line sip.rl:497
+msg.MinExpires=0
+//line sip.rl:248
+
+	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
+
+	goto st546
+tr747:
+//line sip.rl:248
+
+	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
+
+	goto st546
 	st546:
 		if p++; p == pe {
 			goto _test_eof546
 		}
 	st_case_546:
-		switch data[p] {
-		case 73:
-			goto st547
-		case 105:
-			goto st547
+//line msg_parse.go:14219
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
 		}
-		goto tr418
+		if _widec == 269 {
+			goto st382
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr747
+		}
+		goto st0
 	st547:
 		if p++; p == pe {
 			goto _test_eof547
 		}
 	st_case_547:
-		switch data[p] {
-		case 82:
-			goto st548
-		case 114:
+		if data[p] == 10 {
 			goto st548
 		}
-		goto tr418
+		goto st0
 	st548:
 		if p++; p == pe {
 			goto _test_eof548
 		}
 	st_case_548:
 		switch data[p] {
-		case 69:
+		case 9:
 			goto st549
-		case 101:
+		case 32:
 			goto st549
 		}
-		goto tr418
+		goto st0
 	st549:
 		if p++; p == pe {
 			goto _test_eof549
 		}
 	st_case_549:
 		switch data[p] {
-		case 83:
-			goto st550
-		case 115:
-			goto st550
+		case 9:
+			goto st549
+		case 32:
+			goto st549
 		}
-		goto tr418
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr745
+		}
+		goto st0
 	st550:
 		if p++; p == pe {
 			goto _test_eof550
@@ -14326,11 +14282,15 @@ tr727:
 	st_case_550:
 		switch data[p] {
 		case 9:
-			goto st551
+			goto tr670
 		case 32:
-			goto st551
+			goto tr670
 		case 58:
-			goto st552
+			goto tr671
+		case 82:
+			goto st551
+		case 114:
+			goto st551
 		}
 		goto tr418
 	st551:
@@ -14339,123 +14299,81 @@ tr727:
 		}
 	st_case_551:
 		switch data[p] {
-		case 9:
-			goto st551
-		case 32:
-			goto st551
-		case 58:
-			goto st552
-		}
-		goto st0
-	st552:
-		if p++; p == pe {
-			goto _test_eof552
-		}
-	st_case_552:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
+		case 71:
 			goto st552
-		case 32:
+		case 103:
 			goto st552
-		case 525:
-			goto st554
 		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr753
+		goto tr418
+	st552:
+		if p++; p == pe {
+			goto _test_eof552
 		}
-		goto st0
-tr753:
-//line sip.rl:497
-msg.MinExpires=0
-//line sip.rl:248
-
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
-
-	goto st553
-tr755:
-//line sip.rl:248
-
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
-
-	goto st553
+	st_case_552:
+		switch data[p] {
+		case 65:
+			goto st553
+		case 97:
+			goto st553
+		}
+		goto tr418
 	st553:
 		if p++; p == pe {
 			goto _test_eof553
 		}
 	st_case_553:
-//line msg_parse.go:14385
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		if _widec == 269 {
-			goto st382
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr755
+		switch data[p] {
+		case 78:
+			goto st554
+		case 110:
+			goto st554
 		}
-		goto st0
+		goto tr418
 	st554:
 		if p++; p == pe {
 			goto _test_eof554
 		}
 	st_case_554:
-		if data[p] == 10 {
+		switch data[p] {
+		case 73:
+			goto st555
+		case 105:
 			goto st555
 		}
-		goto st0
+		goto tr418
 	st555:
 		if p++; p == pe {
 			goto _test_eof555
 		}
 	st_case_555:
 		switch data[p] {
-		case 9:
+		case 90:
 			goto st556
-		case 32:
+		case 122:
 			goto st556
 		}
-		goto st0
+		goto tr418
 	st556:
 		if p++; p == pe {
 			goto _test_eof556
 		}
 	st_case_556:
 		switch data[p] {
-		case 9:
-			goto st556
-		case 32:
-			goto st556
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr753
+		case 65:
+			goto st557
+		case 97:
+			goto st557
 		}
-		goto st0
+		goto tr418
 	st557:
 		if p++; p == pe {
 			goto _test_eof557
 		}
 	st_case_557:
 		switch data[p] {
-		case 9:
-			goto tr671
-		case 32:
-			goto tr671
-		case 58:
-			goto tr672
-		case 82:
+		case 84:
 			goto st558
-		case 114:
+		case 116:
 			goto st558
 		}
 		goto tr418
@@ -14465,9 +14383,9 @@ tr755:
 		}
 	st_case_558:
 		switch data[p] {
-		case 71:
+		case 73:
 			goto st559
-		case 103:
+		case 105:
 			goto st559
 		}
 		goto tr418
@@ -14477,9 +14395,9 @@ tr755:
 		}
 	st_case_559:
 		switch data[p] {
-		case 65:
+		case 79:
 			goto st560
-		case 97:
+		case 111:
 			goto st560
 		}
 		goto tr418
@@ -14501,10 +14419,12 @@ tr755:
 		}
 	st_case_561:
 		switch data[p] {
-		case 73:
-			goto st562
-		case 105:
-			goto st562
+		case 9:
+			goto tr761
+		case 32:
+			goto tr761
+		case 58:
+			goto tr762
 		}
 		goto tr418
 	st562:
@@ -14513,10 +14433,12 @@ tr755:
 		}
 	st_case_562:
 		switch data[p] {
-		case 90:
-			goto st563
-		case 122:
+		case 45:
 			goto st563
+		case 82:
+			goto st581
+		case 114:
+			goto st581
 		}
 		goto tr418
 	st563:
@@ -14537,9 +14459,9 @@ tr755:
 		}
 	st_case_564:
 		switch data[p] {
-		case 84:
+		case 83:
 			goto st565
-		case 116:
+		case 115:
 			goto st565
 		}
 		goto tr418
@@ -14549,9 +14471,9 @@ tr755:
 		}
 	st_case_565:
 		switch data[p] {
-		case 73:
+		case 83:
 			goto st566
-		case 105:
+		case 115:
 			goto st566
 		}
 		goto tr418
@@ -14561,9 +14483,9 @@ tr755:
 		}
 	st_case_566:
 		switch data[p] {
-		case 79:
+		case 69:
 			goto st567
-		case 111:
+		case 101:
 			goto st567
 		}
 		goto tr418
@@ -14573,9 +14495,9 @@ tr755:
 		}
 	st_case_567:
 		switch data[p] {
-		case 78:
+		case 82:
 			goto st568
-		case 110:
+		case 114:
 			goto st568
 		}
 		goto tr418
@@ -14585,12 +14507,10 @@ tr755:
 		}
 	st_case_568:
 		switch data[p] {
-		case 9:
-			goto tr769
-		case 32:
-			goto tr769
-		case 58:
-			goto tr770
+		case 84:
+			goto st569
+		case 116:
+			goto st569
 		}
 		goto tr418
 	st569:
@@ -14599,12 +14519,10 @@ tr755:
 		}
 	st_case_569:
 		switch data[p] {
-		case 45:
+		case 69:
+			goto st570
+		case 101:
 			goto st570
-		case 82:
-			goto st588
-		case 114:
-			goto st588
 		}
 		goto tr418
 	st570:
@@ -14613,9 +14531,9 @@ tr755:
 		}
 	st_case_570:
 		switch data[p] {
-		case 65:
+		case 68:
 			goto st571
-		case 97:
+		case 100:
 			goto st571
 		}
 		goto tr418
@@ -14624,10 +14542,7 @@ tr755:
 			goto _test_eof571
 		}
 	st_case_571:
-		switch data[p] {
-		case 83:
-			goto st572
-		case 115:
+		if data[p] == 45 {
 			goto st572
 		}
 		goto tr418
@@ -14637,9 +14552,9 @@ tr755:
 		}
 	st_case_572:
 		switch data[p] {
-		case 83:
+		case 73:
 			goto st573
-		case 115:
+		case 105:
 			goto st573
 		}
 		goto tr418
@@ -14649,9 +14564,9 @@ tr755:
 		}
 	st_case_573:
 		switch data[p] {
-		case 69:
+		case 68:
 			goto st574
-		case 101:
+		case 100:
 			goto st574
 		}
 		goto tr418
@@ -14661,9 +14576,9 @@ tr755:
 		}
 	st_case_574:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st575
-		case 114:
+		case 101:
 			goto st575
 		}
 		goto tr418
@@ -14673,9 +14588,9 @@ tr755:
 		}
 	st_case_575:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st576
-		case 116:
+		case 110:
 			goto st576
 		}
 		goto tr418
@@ -14685,9 +14600,9 @@ tr755:
 		}
 	st_case_576:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st577
-		case 101:
+		case 116:
 			goto st577
 		}
 		goto tr418
@@ -14697,9 +14612,9 @@ tr755:
 		}
 	st_case_577:
 		switch data[p] {
-		case 68:
+		case 73:
 			goto st578
-		case 100:
+		case 105:
 			goto st578
 		}
 		goto tr418
@@ -14708,7 +14623,10 @@ tr755:
 			goto _test_eof578
 		}
 	st_case_578:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st579
+		case 116:
 			goto st579
 		}
 		goto tr418
@@ -14718,9 +14636,9 @@ tr755:
 		}
 	st_case_579:
 		switch data[p] {
-		case 73:
+		case 89:
 			goto st580
-		case 105:
+		case 121:
 			goto st580
 		}
 		goto tr418
@@ -14730,10 +14648,12 @@ tr755:
 		}
 	st_case_580:
 		switch data[p] {
-		case 68:
-			goto st581
-		case 100:
-			goto st581
+		case 9:
+			goto tr782
+		case 32:
+			goto tr782
+		case 58:
+			goto tr783
 		}
 		goto tr418
 	st581:
@@ -14742,10 +14662,14 @@ tr755:
 		}
 	st_case_581:
 		switch data[p] {
-		case 69:
+		case 73:
 			goto st582
-		case 101:
+		case 79:
+			goto st588
+		case 105:
 			goto st582
+		case 111:
+			goto st588
 		}
 		goto tr418
 	st582:
@@ -14754,9 +14678,9 @@ tr755:
 		}
 	st_case_582:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st583
-		case 110:
+		case 111:
 			goto st583
 		}
 		goto tr418
@@ -14766,9 +14690,9 @@ tr755:
 		}
 	st_case_583:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st584
-		case 116:
+		case 114:
 			goto st584
 		}
 		goto tr418
@@ -14815,11 +14739,11 @@ tr755:
 	st_case_587:
 		switch data[p] {
 		case 9:
-			goto tr790
+			goto tr791
 		case 32:
-			goto tr790
-		case 58:
 			goto tr791
+		case 58:
+			goto tr792
 		}
 		goto tr418
 	st588:
@@ -14828,14 +14752,10 @@ tr755:
 		}
 	st_case_588:
 		switch data[p] {
-		case 73:
+		case 88:
 			goto st589
-		case 79:
-			goto st595
-		case 105:
+		case 120:
 			goto st589
-		case 111:
-			goto st595
 		}
 		goto tr418
 	st589:
@@ -14844,9 +14764,9 @@ tr755:
 		}
 	st_case_589:
 		switch data[p] {
-		case 79:
+		case 89:
 			goto st590
-		case 111:
+		case 121:
 			goto st590
 		}
 		goto tr418
@@ -14855,10 +14775,7 @@ tr755:
 			goto _test_eof590
 		}
 	st_case_590:
-		switch data[p] {
-		case 82:
-			goto st591
-		case 114:
+		if data[p] == 45 {
 			goto st591
 		}
 		goto tr418
@@ -14868,10 +14785,14 @@ tr755:
 		}
 	st_case_591:
 		switch data[p] {
-		case 73:
+		case 65:
 			goto st592
-		case 105:
+		case 82:
+			goto st613
+		case 97:
 			goto st592
+		case 114:
+			goto st613
 		}
 		goto tr418
 	st592:
@@ -14880,9 +14801,9 @@ tr755:
 		}
 	st_case_592:
 		switch data[p] {
-		case 84:
+		case 85:
 			goto st593
-		case 116:
+		case 117:
 			goto st593
 		}
 		goto tr418
@@ -14892,9 +14813,9 @@ tr755:
 		}
 	st_case_593:
 		switch data[p] {
-		case 89:
+		case 84:
 			goto st594
-		case 121:
+		case 116:
 			goto st594
 		}
 		goto tr418
@@ -14904,12 +14825,10 @@ tr755:
 		}
 	st_case_594:
 		switch data[p] {
-		case 9:
-			goto tr799
-		case 32:
-			goto tr799
-		case 58:
-			goto tr800
+		case 72:
+			goto st595
+		case 104:
+			goto st595
 		}
 		goto tr418
 	st595:
@@ -14918,10 +14837,14 @@ tr755:
 		}
 	st_case_595:
 		switch data[p] {
-		case 88:
+		case 69:
 			goto st596
-		case 120:
+		case 79:
+			goto st604
+		case 101:
 			goto st596
+		case 111:
+			goto st604
 		}
 		goto tr418
 	st596:
@@ -14930,9 +14853,9 @@ tr755:
 		}
 	st_case_596:
 		switch data[p] {
-		case 89:
+		case 78:
 			goto st597
-		case 121:
+		case 110:
 			goto st597
 		}
 		goto tr418
@@ -14941,7 +14864,10 @@ tr755:
 			goto _test_eof597
 		}
 	st_case_597:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st598
+		case 116:
 			goto st598
 		}
 		goto tr418
@@ -14951,14 +14877,10 @@ tr755:
 		}
 	st_case_598:
 		switch data[p] {
-		case 65:
+		case 73:
 			goto st599
-		case 82:
-			goto st620
-		case 97:
+		case 105:
 			goto st599
-		case 114:
-			goto st620
 		}
 		goto tr418
 	st599:
@@ -14967,9 +14889,9 @@ tr755:
 		}
 	st_case_599:
 		switch data[p] {
-		case 85:
+		case 67:
 			goto st600
-		case 117:
+		case 99:
 			goto st600
 		}
 		goto tr418
@@ -14979,9 +14901,9 @@ tr755:
 		}
 	st_case_600:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st601
-		case 116:
+		case 97:
 			goto st601
 		}
 		goto tr418
@@ -14991,9 +14913,9 @@ tr755:
 		}
 	st_case_601:
 		switch data[p] {
-		case 72:
+		case 84:
 			goto st602
-		case 104:
+		case 116:
 			goto st602
 		}
 		goto tr418
@@ -15005,12 +14927,8 @@ tr755:
 		switch data[p] {
 		case 69:
 			goto st603
-		case 79:
-			goto st611
 		case 101:
 			goto st603
-		case 111:
-			goto st611
 		}
 		goto tr418
 	st603:
@@ -15019,10 +14937,12 @@ tr755:
 		}
 	st_case_603:
 		switch data[p] {
-		case 78:
-			goto st604
-		case 110:
-			goto st604
+		case 9:
+			goto tr810
+		case 32:
+			goto tr810
+		case 58:
+			goto tr811
 		}
 		goto tr418
 	st604:
@@ -15031,9 +14951,9 @@ tr755:
 		}
 	st_case_604:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st605
-		case 116:
+		case 114:
 			goto st605
 		}
 		goto tr418
@@ -15055,9 +14975,9 @@ tr755:
 		}
 	st_case_606:
 		switch data[p] {
-		case 67:
+		case 90:
 			goto st607
-		case 99:
+		case 122:
 			goto st607
 		}
 		goto tr418
@@ -15091,9 +15011,9 @@ tr755:
 		}
 	st_case_609:
 		switch data[p] {
-		case 69:
+		case 73:
 			goto st610
-		case 101:
+		case 105:
 			goto st610
 		}
 		goto tr418
@@ -15103,12 +15023,10 @@ tr755:
 		}
 	st_case_610:
 		switch data[p] {
-		case 9:
-			goto tr818
-		case 32:
-			goto tr818
-		case 58:
-			goto tr819
+		case 79:
+			goto st611
+		case 111:
+			goto st611
 		}
 		goto tr418
 	st611:
@@ -15117,9 +15035,9 @@ tr755:
 		}
 	st_case_611:
 		switch data[p] {
-		case 82:
+		case 78:
 			goto st612
-		case 114:
+		case 110:
 			goto st612
 		}
 		goto tr418
@@ -15129,10 +15047,12 @@ tr755:
 		}
 	st_case_612:
 		switch data[p] {
-		case 73:
-			goto st613
-		case 105:
-			goto st613
+		case 9:
+			goto tr820
+		case 32:
+			goto tr820
+		case 58:
+			goto tr821
 		}
 		goto tr418
 	st613:
@@ -15141,9 +15061,9 @@ tr755:
 		}
 	st_case_613:
 		switch data[p] {
-		case 90:
+		case 69:
 			goto st614
-		case 122:
+		case 101:
 			goto st614
 		}
 		goto tr418
@@ -15153,9 +15073,9 @@ tr755:
 		}
 	st_case_614:
 		switch data[p] {
-		case 65:
+		case 81:
 			goto st615
-		case 97:
+		case 113:
 			goto st615
 		}
 		goto tr418
@@ -15165,9 +15085,9 @@ tr755:
 		}
 	st_case_615:
 		switch data[p] {
-		case 84:
+		case 85:
 			goto st616
-		case 116:
+		case 117:
 			goto st616
 		}
 		goto tr418
@@ -15189,9 +15109,9 @@ tr755:
 		}
 	st_case_617:
 		switch data[p] {
-		case 79:
+		case 82:
 			goto st618
-		case 111:
+		case 114:
 			goto st618
 		}
 		goto tr418
@@ -15201,9 +15121,9 @@ tr755:
 		}
 	st_case_618:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st619
-		case 110:
+		case 101:
 			goto st619
 		}
 		goto tr418
@@ -15227,10 +15147,20 @@ tr755:
 		}
 	st_case_620:
 		switch data[p] {
+		case 9:
+			goto tr830
+		case 32:
+			goto tr830
+		case 58:
+			goto tr831
 		case 69:
 			goto st621
+		case 79:
+			goto st676
 		case 101:
 			goto st621
+		case 111:
+			goto st676
 		}
 		goto tr418
 	st621:
@@ -15239,10 +15169,30 @@ tr755:
 		}
 	st_case_621:
 		switch data[p] {
+		case 67:
+			goto st622
+		case 70:
+			goto st632
+		case 77:
+			goto st643
+		case 80:
+			goto st656
 		case 81:
+			goto st662
+		case 84:
+			goto st667
+		case 99:
 			goto st622
+		case 102:
+			goto st632
+		case 109:
+			goto st643
+		case 112:
+			goto st656
 		case 113:
-			goto st622
+			goto st662
+		case 116:
+			goto st667
 		}
 		goto tr418
 	st622:
@@ -15251,9 +15201,9 @@ tr755:
 		}
 	st_case_622:
 		switch data[p] {
-		case 85:
+		case 79:
 			goto st623
-		case 117:
+		case 111:
 			goto st623
 		}
 		goto tr418
@@ -15263,9 +15213,9 @@ tr755:
 		}
 	st_case_623:
 		switch data[p] {
-		case 73:
+		case 82:
 			goto st624
-		case 105:
+		case 114:
 			goto st624
 		}
 		goto tr418
@@ -15275,9 +15225,9 @@ tr755:
 		}
 	st_case_624:
 		switch data[p] {
-		case 82:
+		case 68:
 			goto st625
-		case 114:
+		case 100:
 			goto st625
 		}
 		goto tr418
@@ -15286,10 +15236,7 @@ tr755:
 			goto _test_eof625
 		}
 	st_case_625:
-		switch data[p] {
-		case 69:
-			goto st626
-		case 101:
+		if data[p] == 45 {
 			goto st626
 		}
 		goto tr418
@@ -15299,12 +15246,10 @@ tr755:
 		}
 	st_case_626:
 		switch data[p] {
-		case 9:
-			goto tr836
-		case 32:
-			goto tr836
-		case 58:
-			goto tr837
+		case 82:
+			goto st627
+		case 114:
+			goto st627
 		}
 		goto tr418
 	st627:
@@ -15313,20 +15258,10 @@ tr755:
 		}
 	st_case_627:
 		switch data[p] {
-		case 9:
-			goto tr838
-		case 32:
-			goto tr838
-		case 58:
-			goto tr839
-		case 69:
-			goto st628
 		case 79:
-			goto st683
-		case 101:
 			goto st628
 		case 111:
-			goto st683
+			goto st628
 		}
 		goto tr418
 	st628:
@@ -15335,30 +15270,10 @@ tr755:
 		}
 	st_case_628:
 		switch data[p] {
-		case 67:
+		case 85:
 			goto st629
-		case 70:
-			goto st639
-		case 77:
-			goto st650
-		case 80:
-			goto st663
-		case 81:
-			goto st669
-		case 84:
-			goto st674
-		case 99:
+		case 117:
 			goto st629
-		case 102:
-			goto st639
-		case 109:
-			goto st650
-		case 112:
-			goto st663
-		case 113:
-			goto st669
-		case 116:
-			goto st674
 		}
 		goto tr418
 	st629:
@@ -15367,9 +15282,9 @@ tr755:
 		}
 	st_case_629:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st630
-		case 111:
+		case 116:
 			goto st630
 		}
 		goto tr418
@@ -15379,9 +15294,9 @@ tr755:
 		}
 	st_case_630:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st631
-		case 114:
+		case 101:
 			goto st631
 		}
 		goto tr418
@@ -15391,10 +15306,12 @@ tr755:
 		}
 	st_case_631:
 		switch data[p] {
-		case 68:
-			goto st632
-		case 100:
-			goto st632
+		case 9:
+			goto tr849
+		case 32:
+			goto tr849
+		case 58:
+			goto tr850
 		}
 		goto tr418
 	st632:
@@ -15402,7 +15319,10 @@ tr755:
 			goto _test_eof632
 		}
 	st_case_632:
-		if data[p] == 45 {
+		switch data[p] {
+		case 69:
+			goto st633
+		case 101:
 			goto st633
 		}
 		goto tr418
@@ -15424,10 +15344,12 @@ tr755:
 		}
 	st_case_634:
 		switch data[p] {
-		case 79:
-			goto st635
-		case 111:
+		case 45:
 			goto st635
+		case 82:
+			goto st638
+		case 114:
+			goto st638
 		}
 		goto tr418
 	st635:
@@ -15436,9 +15358,9 @@ tr755:
 		}
 	st_case_635:
 		switch data[p] {
-		case 85:
+		case 84:
 			goto st636
-		case 117:
+		case 116:
 			goto st636
 		}
 		goto tr418
@@ -15448,9 +15370,9 @@ tr755:
 		}
 	st_case_636:
 		switch data[p] {
-		case 84:
+		case 79:
 			goto st637
-		case 116:
+		case 111:
 			goto st637
 		}
 		goto tr418
@@ -15460,10 +15382,12 @@ tr755:
 		}
 	st_case_637:
 		switch data[p] {
-		case 69:
-			goto st638
-		case 101:
-			goto st638
+		case 9:
+			goto tr830
+		case 32:
+			goto tr830
+		case 58:
+			goto tr831
 		}
 		goto tr418
 	st638:
@@ -15472,12 +15396,10 @@ tr755:
 		}
 	st_case_638:
 		switch data[p] {
-		case 9:
-			goto tr857
-		case 32:
-			goto tr857
-		case 58:
-			goto tr858
+		case 69:
+			goto st639
+		case 101:
+			goto st639
 		}
 		goto tr418
 	st639:
@@ -15486,9 +15408,9 @@ tr755:
 		}
 	st_case_639:
 		switch data[p] {
-		case 69:
+		case 68:
 			goto st640
-		case 101:
+		case 100:
 			goto st640
 		}
 		goto tr418
@@ -15497,10 +15419,7 @@ tr755:
 			goto _test_eof640
 		}
 	st_case_640:
-		switch data[p] {
-		case 82:
-			goto st641
-		case 114:
+		if data[p] == 45 {
 			goto st641
 		}
 		goto tr418
@@ -15510,12 +15429,10 @@ tr755:
 		}
 	st_case_641:
 		switch data[p] {
-		case 45:
+		case 66:
+			goto st642
+		case 98:
 			goto st642
-		case 82:
-			goto st645
-		case 114:
-			goto st645
 		}
 		goto tr418
 	st642:
@@ -15524,10 +15441,10 @@ tr755:
 		}
 	st_case_642:
 		switch data[p] {
-		case 84:
-			goto st643
-		case 116:
-			goto st643
+		case 89:
+			goto st364
+		case 121:
+			goto st364
 		}
 		goto tr418
 	st643:
@@ -15548,12 +15465,10 @@ tr755:
 		}
 	st_case_644:
 		switch data[p] {
-		case 9:
-			goto tr838
-		case 32:
-			goto tr838
-		case 58:
-			goto tr839
+		case 84:
+			goto st645
+		case 116:
+			goto st645
 		}
 		goto tr418
 	st645:
@@ -15573,10 +15488,7 @@ tr755:
 			goto _test_eof646
 		}
 	st_case_646:
-		switch data[p] {
-		case 68:
-			goto st647
-		case 100:
+		if data[p] == 45 {
 			goto st647
 		}
 		goto tr418
@@ -15585,7 +15497,10 @@ tr755:
 			goto _test_eof647
 		}
 	st_case_647:
-		if data[p] == 45 {
+		switch data[p] {
+		case 80:
+			goto st648
+		case 112:
 			goto st648
 		}
 		goto tr418
@@ -15595,9 +15510,9 @@ tr755:
 		}
 	st_case_648:
 		switch data[p] {
-		case 66:
+		case 65:
 			goto st649
-		case 98:
+		case 97:
 			goto st649
 		}
 		goto tr418
@@ -15607,10 +15522,10 @@ tr755:
 		}
 	st_case_649:
 		switch data[p] {
-		case 89:
-			goto st364
-		case 121:
-			goto st364
+		case 82:
+			goto st650
+		case 114:
+			goto st650
 		}
 		goto tr418
 	st650:
@@ -15619,9 +15534,9 @@ tr755:
 		}
 	st_case_650:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st651
-		case 111:
+		case 116:
 			goto st651
 		}
 		goto tr418
@@ -15631,9 +15546,9 @@ tr755:
 		}
 	st_case_651:
 		switch data[p] {
-		case 84:
+		case 89:
 			goto st652
-		case 116:
+		case 121:
 			goto st652
 		}
 		goto tr418
@@ -15642,10 +15557,7 @@ tr755:
 			goto _test_eof652
 		}
 	st_case_652:
-		switch data[p] {
-		case 69:
-			goto st653
-		case 101:
+		if data[p] == 45 {
 			goto st653
 		}
 		goto tr418
@@ -15654,7 +15566,10 @@ tr755:
 			goto _test_eof653
 		}
 	st_case_653:
-		if data[p] == 45 {
+		switch data[p] {
+		case 73:
+			goto st654
+		case 105:
 			goto st654
 		}
 		goto tr418
@@ -15664,9 +15579,9 @@ tr755:
 		}
 	st_case_654:
 		switch data[p] {
-		case 80:
+		case 68:
 			goto st655
-		case 112:
+		case 100:
 			goto st655
 		}
 		goto tr418
@@ -15676,10 +15591,12 @@ tr755:
 		}
 	st_case_655:
 		switch data[p] {
-		case 65:
-			goto st656
-		case 97:
-			goto st656
+		case 9:
+			goto tr873
+		case 32:
+			goto tr873
+		case 58:
+			goto tr874
 		}
 		goto tr418
 	st656:
@@ -15688,9 +15605,9 @@ tr755:
 		}
 	st_case_656:
 		switch data[p] {
-		case 82:
+		case 76:
 			goto st657
-		case 114:
+		case 108:
 			goto st657
 		}
 		goto tr418
@@ -15700,9 +15617,9 @@ tr755:
 		}
 	st_case_657:
 		switch data[p] {
-		case 84:
+		case 89:
 			goto st658
-		case 116:
+		case 121:
 			goto st658
 		}
 		goto tr418
@@ -15711,10 +15628,7 @@ tr755:
 			goto _test_eof658
 		}
 	st_case_658:
-		switch data[p] {
-		case 89:
-			goto st659
-		case 121:
+		if data[p] == 45 {
 			goto st659
 		}
 		goto tr418
@@ -15723,7 +15637,10 @@ tr755:
 			goto _test_eof659
 		}
 	st_case_659:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st660
+		case 116:
 			goto st660
 		}
 		goto tr418
@@ -15733,9 +15650,9 @@ tr755:
 		}
 	st_case_660:
 		switch data[p] {
-		case 73:
+		case 79:
 			goto st661
-		case 105:
+		case 111:
 			goto st661
 		}
 		goto tr418
@@ -15745,10 +15662,12 @@ tr755:
 		}
 	st_case_661:
 		switch data[p] {
-		case 68:
-			goto st662
-		case 100:
-			goto st662
+		case 9:
+			goto tr880
+		case 32:
+			goto tr880
+		case 58:
+			goto tr881
 		}
 		goto tr418
 	st662:
@@ -15757,12 +15676,10 @@ tr755:
 		}
 	st_case_662:
 		switch data[p] {
-		case 9:
-			goto tr881
-		case 32:
-			goto tr881
-		case 58:
-			goto tr882
+		case 85:
+			goto st663
+		case 117:
+			goto st663
 		}
 		goto tr418
 	st663:
@@ -15771,9 +15688,9 @@ tr755:
 		}
 	st_case_663:
 		switch data[p] {
-		case 76:
+		case 73:
 			goto st664
-		case 108:
+		case 105:
 			goto st664
 		}
 		goto tr418
@@ -15783,9 +15700,9 @@ tr755:
 		}
 	st_case_664:
 		switch data[p] {
-		case 89:
+		case 82:
 			goto st665
-		case 121:
+		case 114:
 			goto st665
 		}
 		goto tr418
@@ -15794,7 +15711,10 @@ tr755:
 			goto _test_eof665
 		}
 	st_case_665:
-		if data[p] == 45 {
+		switch data[p] {
+		case 69:
+			goto st666
+		case 101:
 			goto st666
 		}
 		goto tr418
@@ -15804,10 +15724,12 @@ tr755:
 		}
 	st_case_666:
 		switch data[p] {
-		case 84:
-			goto st667
-		case 116:
-			goto st667
+		case 9:
+			goto tr886
+		case 32:
+			goto tr886
+		case 58:
+			goto tr887
 		}
 		goto tr418
 	st667:
@@ -15816,9 +15738,9 @@ tr755:
 		}
 	st_case_667:
 		switch data[p] {
-		case 79:
+		case 82:
 			goto st668
-		case 111:
+		case 114:
 			goto st668
 		}
 		goto tr418
@@ -15828,12 +15750,10 @@ tr755:
 		}
 	st_case_668:
 		switch data[p] {
-		case 9:
-			goto tr888
-		case 32:
-			goto tr888
-		case 58:
-			goto tr889
+		case 89:
+			goto st669
+		case 121:
+			goto st669
 		}
 		goto tr418
 	st669:
@@ -15841,10 +15761,7 @@ tr755:
 			goto _test_eof669
 		}
 	st_case_669:
-		switch data[p] {
-		case 85:
-			goto st670
-		case 117:
+		if data[p] == 45 {
 			goto st670
 		}
 		goto tr418
@@ -15854,9 +15771,9 @@ tr755:
 		}
 	st_case_670:
 		switch data[p] {
-		case 73:
+		case 65:
 			goto st671
-		case 105:
+		case 97:
 			goto st671
 		}
 		goto tr418
@@ -15866,9 +15783,9 @@ tr755:
 		}
 	st_case_671:
 		switch data[p] {
-		case 82:
+		case 70:
 			goto st672
-		case 114:
+		case 102:
 			goto st672
 		}
 		goto tr418
@@ -15878,9 +15795,9 @@ tr755:
 		}
 	st_case_672:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st673
-		case 101:
+		case 116:
 			goto st673
 		}
 		goto tr418
@@ -15890,12 +15807,10 @@ tr755:
 		}
 	st_case_673:
 		switch data[p] {
-		case 9:
-			goto tr894
-		case 32:
-			goto tr894
-		case 58:
-			goto tr895
+		case 69:
+			goto st674
+		case 101:
+			goto st674
 		}
 		goto tr418
 	st674:
@@ -15916,10 +15831,12 @@ tr755:
 		}
 	st_case_675:
 		switch data[p] {
-		case 89:
-			goto st676
-		case 121:
-			goto st676
+		case 9:
+			goto tr896
+		case 32:
+			goto tr896
+		case 58:
+			goto tr897
 		}
 		goto tr418
 	st676:
@@ -15927,7 +15844,10 @@ tr755:
 			goto _test_eof676
 		}
 	st_case_676:
-		if data[p] == 45 {
+		switch data[p] {
+		case 85:
+			goto st677
+		case 117:
 			goto st677
 		}
 		goto tr418
@@ -15937,9 +15857,9 @@ tr755:
 		}
 	st_case_677:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st678
-		case 97:
+		case 116:
 			goto st678
 		}
 		goto tr418
@@ -15949,9 +15869,9 @@ tr755:
 		}
 	st_case_678:
 		switch data[p] {
-		case 70:
+		case 69:
 			goto st679
-		case 102:
+		case 101:
 			goto st679
 		}
 		goto tr418
@@ -15961,10 +15881,12 @@ tr755:
 		}
 	st_case_679:
 		switch data[p] {
-		case 84:
-			goto st680
-		case 116:
-			goto st680
+		case 9:
+			goto tr901
+		case 32:
+			goto tr901
+		case 58:
+			goto tr902
 		}
 		goto tr418
 	st680:
@@ -15973,10 +15895,20 @@ tr755:
 		}
 	st_case_680:
 		switch data[p] {
+		case 9:
+			goto tr903
+		case 32:
+			goto tr903
+		case 58:
+			goto tr904
 		case 69:
 			goto st681
+		case 85:
+			goto st686
 		case 101:
 			goto st681
+		case 117:
+			goto st686
 		}
 		goto tr418
 	st681:
@@ -15997,12 +15929,10 @@ tr755:
 		}
 	st_case_682:
 		switch data[p] {
-		case 9:
-			goto tr904
-		case 32:
-			goto tr904
-		case 58:
-			goto tr905
+		case 86:
+			goto st683
+		case 118:
+			goto st683
 		}
 		goto tr418
 	st683:
@@ -16011,9 +15941,9 @@ tr755:
 		}
 	st_case_683:
 		switch data[p] {
-		case 85:
+		case 69:
 			goto st684
-		case 117:
+		case 101:
 			goto st684
 		}
 		goto tr418
@@ -16023,9 +15953,9 @@ tr755:
 		}
 	st_case_684:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st685
-		case 116:
+		case 114:
 			goto st685
 		}
 		goto tr418
@@ -16035,10 +15965,12 @@ tr755:
 		}
 	st_case_685:
 		switch data[p] {
-		case 69:
-			goto st686
-		case 101:
-			goto st686
+		case 9:
+			goto tr911
+		case 32:
+			goto tr911
+		case 58:
+			goto tr912
 		}
 		goto tr418
 	st686:
@@ -16047,12 +15979,14 @@ tr755:
 		}
 	st_case_686:
 		switch data[p] {
-		case 9:
-			goto tr909
-		case 32:
-			goto tr909
-		case 58:
-			goto tr910
+		case 66:
+			goto st687
+		case 80:
+			goto st692
+		case 98:
+			goto st687
+		case 112:
+			goto st692
 		}
 		goto tr418
 	st687:
@@ -16061,20 +15995,10 @@ tr755:
 		}
 	st_case_687:
 		switch data[p] {
-		case 9:
-			goto tr911
-		case 32:
-			goto tr911
-		case 58:
-			goto tr912
-		case 69:
+		case 74:
 			goto st688
-		case 85:
-			goto st693
-		case 101:
+		case 106:
 			goto st688
-		case 117:
-			goto st693
 		}
 		goto tr418
 	st688:
@@ -16083,9 +16007,9 @@ tr755:
 		}
 	st_case_688:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st689
-		case 114:
+		case 101:
 			goto st689
 		}
 		goto tr418
@@ -16095,9 +16019,9 @@ tr755:
 		}
 	st_case_689:
 		switch data[p] {
-		case 86:
+		case 67:
 			goto st690
-		case 118:
+		case 99:
 			goto st690
 		}
 		goto tr418
@@ -16107,9 +16031,9 @@ tr755:
 		}
 	st_case_690:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st691
-		case 101:
+		case 116:
 			goto st691
 		}
 		goto tr418
@@ -16119,10 +16043,12 @@ tr755:
 		}
 	st_case_691:
 		switch data[p] {
-		case 82:
-			goto st692
-		case 114:
-			goto st692
+		case 9:
+			goto tr903
+		case 32:
+			goto tr903
+		case 58:
+			goto tr904
 		}
 		goto tr418
 	st692:
@@ -16131,12 +16057,10 @@ tr755:
 		}
 	st_case_692:
 		switch data[p] {
-		case 9:
-			goto tr919
-		case 32:
-			goto tr919
-		case 58:
-			goto tr920
+		case 80:
+			goto st693
+		case 112:
+			goto st693
 		}
 		goto tr418
 	st693:
@@ -16145,14 +16069,10 @@ tr755:
 		}
 	st_case_693:
 		switch data[p] {
-		case 66:
+		case 79:
 			goto st694
-		case 80:
-			goto st699
-		case 98:
+		case 111:
 			goto st694
-		case 112:
-			goto st699
 		}
 		goto tr418
 	st694:
@@ -16161,9 +16081,9 @@ tr755:
 		}
 	st_case_694:
 		switch data[p] {
-		case 74:
+		case 82:
 			goto st695
-		case 106:
+		case 114:
 			goto st695
 		}
 		goto tr418
@@ -16173,9 +16093,9 @@ tr755:
 		}
 	st_case_695:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st696
-		case 101:
+		case 116:
 			goto st696
 		}
 		goto tr418
@@ -16185,9 +16105,9 @@ tr755:
 		}
 	st_case_696:
 		switch data[p] {
-		case 67:
+		case 69:
 			goto st697
-		case 99:
+		case 101:
 			goto st697
 		}
 		goto tr418
@@ -16197,10 +16117,10 @@ tr755:
 		}
 	st_case_697:
 		switch data[p] {
-		case 84:
-			goto st698
-		case 116:
-			goto st698
+		case 68:
+			goto st505
+		case 100:
+			goto st505
 		}
 		goto tr418
 	st698:
@@ -16210,11 +16130,19 @@ tr755:
 	st_case_698:
 		switch data[p] {
 		case 9:
-			goto tr911
+			goto tr924
 		case 32:
-			goto tr911
+			goto tr924
 		case 58:
-			goto tr912
+			goto tr925
+		case 73:
+			goto st699
+		case 79:
+			goto st707
+		case 105:
+			goto st699
+		case 111:
+			goto st707
 		}
 		goto tr418
 	st699:
@@ -16223,9 +16151,9 @@ tr755:
 		}
 	st_case_699:
 		switch data[p] {
-		case 80:
+		case 77:
 			goto st700
-		case 112:
+		case 109:
 			goto st700
 		}
 		goto tr418
@@ -16235,9 +16163,9 @@ tr755:
 		}
 	st_case_700:
 		switch data[p] {
-		case 79:
+		case 69:
 			goto st701
-		case 111:
+		case 101:
 			goto st701
 		}
 		goto tr418
@@ -16247,9 +16175,9 @@ tr755:
 		}
 	st_case_701:
 		switch data[p] {
-		case 82:
+		case 83:
 			goto st702
-		case 114:
+		case 115:
 			goto st702
 		}
 		goto tr418
@@ -16271,9 +16199,9 @@ tr755:
 		}
 	st_case_703:
 		switch data[p] {
-		case 69:
+		case 65:
 			goto st704
-		case 101:
+		case 97:
 			goto st704
 		}
 		goto tr418
@@ -16283,10 +16211,10 @@ tr755:
 		}
 	st_case_704:
 		switch data[p] {
-		case 68:
-			goto st505
-		case 100:
-			goto st505
+		case 77:
+			goto st705
+		case 109:
+			goto st705
 		}
 		goto tr418
 	st705:
@@ -16295,20 +16223,10 @@ tr755:
 		}
 	st_case_705:
 		switch data[p] {
-		case 9:
-			goto tr932
-		case 32:
-			goto tr932
-		case 58:
-			goto tr933
-		case 73:
+		case 80:
 			goto st706
-		case 79:
-			goto st714
-		case 105:
+		case 112:
 			goto st706
-		case 111:
-			goto st714
 		}
 		goto tr418
 	st706:
@@ -16317,10 +16235,12 @@ tr755:
 		}
 	st_case_706:
 		switch data[p] {
-		case 77:
-			goto st707
-		case 109:
-			goto st707
+		case 9:
+			goto tr935
+		case 32:
+			goto tr935
+		case 58:
+			goto tr936
 		}
 		goto tr418
 	st707:
@@ -16329,10 +16249,12 @@ tr755:
 		}
 	st_case_707:
 		switch data[p] {
-		case 69:
-			goto st708
-		case 101:
-			goto st708
+		case 9:
+			goto tr924
+		case 32:
+			goto tr924
+		case 58:
+			goto tr925
 		}
 		goto tr418
 	st708:
@@ -16341,10 +16263,20 @@ tr755:
 		}
 	st_case_708:
 		switch data[p] {
+		case 9:
+			goto tr937
+		case 32:
+			goto tr937
+		case 58:
+			goto tr938
+		case 78:
+			goto st709
 		case 83:
+			goto st719
+		case 110:
 			goto st709
 		case 115:
-			goto st709
+			goto st719
 		}
 		goto tr418
 	st709:
@@ -16353,9 +16285,9 @@ tr755:
 		}
 	st_case_709:
 		switch data[p] {
-		case 84:
+		case 83:
 			goto st710
-		case 116:
+		case 115:
 			goto st710
 		}
 		goto tr418
@@ -16365,9 +16297,9 @@ tr755:
 		}
 	st_case_710:
 		switch data[p] {
-		case 65:
+		case 85:
 			goto st711
-		case 97:
+		case 117:
 			goto st711
 		}
 		goto tr418
@@ -16377,9 +16309,9 @@ tr755:
 		}
 	st_case_711:
 		switch data[p] {
-		case 77:
+		case 80:
 			goto st712
-		case 109:
+		case 112:
 			goto st712
 		}
 		goto tr418
@@ -16401,12 +16333,10 @@ tr755:
 		}
 	st_case_713:
 		switch data[p] {
-		case 9:
-			goto tr943
-		case 32:
-			goto tr943
-		case 58:
-			goto tr944
+		case 79:
+			goto st714
+		case 111:
+			goto st714
 		}
 		goto tr418
 	st714:
@@ -16415,12 +16345,10 @@ tr755:
 		}
 	st_case_714:
 		switch data[p] {
-		case 9:
-			goto tr932
-		case 32:
-			goto tr932
-		case 58:
-			goto tr933
+		case 82:
+			goto st715
+		case 114:
+			goto st715
 		}
 		goto tr418
 	st715:
@@ -16429,20 +16357,10 @@ tr755:
 		}
 	st_case_715:
 		switch data[p] {
-		case 9:
-			goto tr945
-		case 32:
-			goto tr945
-		case 58:
-			goto tr946
-		case 78:
+		case 84:
 			goto st716
-		case 83:
-			goto st726
-		case 110:
+		case 116:
 			goto st716
-		case 115:
-			goto st726
 		}
 		goto tr418
 	st716:
@@ -16451,9 +16369,9 @@ tr755:
 		}
 	st_case_716:
 		switch data[p] {
-		case 83:
+		case 69:
 			goto st717
-		case 115:
+		case 101:
 			goto st717
 		}
 		goto tr418
@@ -16463,9 +16381,9 @@ tr755:
 		}
 	st_case_717:
 		switch data[p] {
-		case 85:
+		case 68:
 			goto st718
-		case 117:
+		case 100:
 			goto st718
 		}
 		goto tr418
@@ -16475,10 +16393,12 @@ tr755:
 		}
 	st_case_718:
 		switch data[p] {
-		case 80:
-			goto st719
-		case 112:
-			goto st719
+		case 9:
+			goto tr950
+		case 32:
+			goto tr950
+		case 58:
+			goto tr951
 		}
 		goto tr418
 	st719:
@@ -16487,9 +16407,9 @@ tr755:
 		}
 	st_case_719:
 		switch data[p] {
-		case 80:
+		case 69:
 			goto st720
-		case 112:
+		case 101:
 			goto st720
 		}
 		goto tr418
@@ -16499,9 +16419,9 @@ tr755:
 		}
 	st_case_720:
 		switch data[p] {
-		case 79:
+		case 82:
 			goto st721
-		case 111:
+		case 114:
 			goto st721
 		}
 		goto tr418
@@ -16510,10 +16430,7 @@ tr755:
 			goto _test_eof721
 		}
 	st_case_721:
-		switch data[p] {
-		case 82:
-			goto st722
-		case 114:
+		if data[p] == 45 {
 			goto st722
 		}
 		goto tr418
@@ -16523,9 +16440,9 @@ tr755:
 		}
 	st_case_722:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st723
-		case 116:
+		case 97:
 			goto st723
 		}
 		goto tr418
@@ -16535,9 +16452,9 @@ tr755:
 		}
 	st_case_723:
 		switch data[p] {
-		case 69:
+		case 71:
 			goto st724
-		case 101:
+		case 103:
 			goto st724
 		}
 		goto tr418
@@ -16547,9 +16464,9 @@ tr755:
 		}
 	st_case_724:
 		switch data[p] {
-		case 68:
+		case 69:
 			goto st725
-		case 100:
+		case 101:
 			goto st725
 		}
 		goto tr418
@@ -16559,12 +16476,10 @@ tr755:
 		}
 	st_case_725:
 		switch data[p] {
-		case 9:
-			goto tr958
-		case 32:
-			goto tr958
-		case 58:
-			goto tr959
+		case 78:
+			goto st726
+		case 110:
+			goto st726
 		}
 		goto tr418
 	st726:
@@ -16573,9 +16488,9 @@ tr755:
 		}
 	st_case_726:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st727
-		case 101:
+		case 116:
 			goto st727
 		}
 		goto tr418
@@ -16585,10 +16500,12 @@ tr755:
 		}
 	st_case_727:
 		switch data[p] {
-		case 82:
-			goto st728
-		case 114:
-			goto st728
+		case 9:
+			goto tr960
+		case 32:
+			goto tr960
+		case 58:
+			goto tr961
 		}
 		goto tr418
 	st728:
@@ -16596,8 +16513,17 @@ tr755:
 			goto _test_eof728
 		}
 	st_case_728:
-		if data[p] == 45 {
+		switch data[p] {
+		case 9:
+			goto st729
+		case 32:
 			goto st729
+		case 58:
+			goto st730
+		case 73:
+			goto st734
+		case 105:
+			goto st734
 		}
 		goto tr418
 	st729:
@@ -16606,72 +16532,88 @@ tr755:
 		}
 	st_case_729:
 		switch data[p] {
-		case 65:
-			goto st730
-		case 97:
+		case 9:
+			goto st729
+		case 32:
+			goto st729
+		case 58:
 			goto st730
 		}
-		goto tr418
+		goto st0
 	st730:
 		if p++; p == pe {
 			goto _test_eof730
 		}
 	st_case_730:
-		switch data[p] {
-		case 71:
-			goto st731
-		case 103:
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		switch _widec {
+		case 9:
+			goto st730
+		case 32:
+			goto st730
+		case 269:
+			goto tr965
+		case 525:
 			goto st731
 		}
-		goto tr418
+		switch {
+		case _widec > 12:
+			if 14 <= _widec {
+				goto tr965
+			}
+		default:
+			goto tr965
+		}
+		goto st0
 	st731:
 		if p++; p == pe {
 			goto _test_eof731
 		}
 	st_case_731:
-		switch data[p] {
-		case 69:
-			goto st732
-		case 101:
+		if data[p] == 10 {
 			goto st732
 		}
-		goto tr418
+		goto st0
 	st732:
 		if p++; p == pe {
 			goto _test_eof732
 		}
 	st_case_732:
 		switch data[p] {
-		case 78:
+		case 9:
 			goto st733
-		case 110:
+		case 32:
 			goto st733
 		}
-		goto tr418
+		goto st0
 	st733:
 		if p++; p == pe {
 			goto _test_eof733
 		}
-	st_case_733:
-		switch data[p] {
-		case 84:
-			goto st734
-		case 116:
-			goto st734
+	st_case_733:
+		switch data[p] {
+		case 9:
+			goto st733
+		case 32:
+			goto st733
 		}
-		goto tr418
+		goto tr965
 	st734:
 		if p++; p == pe {
 			goto _test_eof734
 		}
 	st_case_734:
 		switch data[p] {
-		case 9:
-			goto tr968
-		case 32:
-			goto tr968
-		case 58:
-			goto tr969
+		case 65:
+			goto st735
+		case 97:
+			goto st735
 		}
 		goto tr418
 	st735:
@@ -16681,15 +16623,11 @@ tr755:
 	st_case_735:
 		switch data[p] {
 		case 9:
-			goto st736
+			goto st729
 		case 32:
-			goto st736
+			goto st729
 		case 58:
-			goto st737
-		case 73:
-			goto st741
-		case 105:
-			goto st741
+			goto st730
 		}
 		goto tr418
 	st736:
@@ -16698,87 +16636,73 @@ tr755:
 		}
 	st_case_736:
 		switch data[p] {
-		case 9:
-			goto st736
-		case 32:
-			goto st736
-		case 58:
+		case 65:
+			goto st737
+		case 87:
+			goto st743
+		case 97:
 			goto st737
+		case 119:
+			goto st743
 		}
-		goto st0
+		goto tr418
 	st737:
 		if p++; p == pe {
 			goto _test_eof737
 		}
 	st_case_737:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st737
-		case 32:
-			goto st737
-		case 269:
-			goto tr973
-		case 525:
+		switch data[p] {
+		case 82:
+			goto st738
+		case 114:
 			goto st738
 		}
-		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr973
-			}
-		default:
-			goto tr973
-		}
-		goto st0
+		goto tr418
 	st738:
 		if p++; p == pe {
 			goto _test_eof738
 		}
 	st_case_738:
-		if data[p] == 10 {
+		switch data[p] {
+		case 78:
+			goto st739
+		case 110:
 			goto st739
 		}
-		goto st0
+		goto tr418
 	st739:
 		if p++; p == pe {
 			goto _test_eof739
 		}
 	st_case_739:
 		switch data[p] {
-		case 9:
+		case 73:
 			goto st740
-		case 32:
+		case 105:
 			goto st740
 		}
-		goto st0
+		goto tr418
 	st740:
 		if p++; p == pe {
 			goto _test_eof740
 		}
 	st_case_740:
 		switch data[p] {
-		case 9:
-			goto st740
-		case 32:
-			goto st740
+		case 78:
+			goto st741
+		case 110:
+			goto st741
 		}
-		goto tr973
+		goto tr418
 	st741:
 		if p++; p == pe {
 			goto _test_eof741
 		}
 	st_case_741:
 		switch data[p] {
-		case 65:
+		case 71:
 			goto st742
-		case 97:
+		case 103:
 			goto st742
 		}
 		goto tr418
@@ -16789,11 +16713,11 @@ tr755:
 	st_case_742:
 		switch data[p] {
 		case 9:
-			goto st736
+			goto tr977
 		case 32:
-			goto st736
+			goto tr977
 		case 58:
-			goto st737
+			goto tr978
 		}
 		goto tr418
 	st743:
@@ -16802,14 +16726,10 @@ tr755:
 		}
 	st_case_743:
 		switch data[p] {
-		case 65:
-			goto st744
 		case 87:
-			goto st750
-		case 97:
 			goto st744
 		case 119:
-			goto st750
+			goto st744
 		}
 		goto tr418
 	st744:
@@ -16817,10 +16737,7 @@ tr755:
 			goto _test_eof744
 		}
 	st_case_744:
-		switch data[p] {
-		case 82:
-			goto st745
-		case 114:
+		if data[p] == 45 {
 			goto st745
 		}
 		goto tr418
@@ -16830,9 +16747,9 @@ tr755:
 		}
 	st_case_745:
 		switch data[p] {
-		case 78:
+		case 65:
 			goto st746
-		case 110:
+		case 97:
 			goto st746
 		}
 		goto tr418
@@ -16842,9 +16759,9 @@ tr755:
 		}
 	st_case_746:
 		switch data[p] {
-		case 73:
+		case 85:
 			goto st747
-		case 105:
+		case 117:
 			goto st747
 		}
 		goto tr418
@@ -16854,9 +16771,9 @@ tr755:
 		}
 	st_case_747:
 		switch data[p] {
-		case 78:
+		case 84:
 			goto st748
-		case 110:
+		case 116:
 			goto st748
 		}
 		goto tr418
@@ -16866,9 +16783,9 @@ tr755:
 		}
 	st_case_748:
 		switch data[p] {
-		case 71:
+		case 72:
 			goto st749
-		case 103:
+		case 104:
 			goto st749
 		}
 		goto tr418
@@ -16878,12 +16795,10 @@ tr755:
 		}
 	st_case_749:
 		switch data[p] {
-		case 9:
-			goto tr985
-		case 32:
-			goto tr985
-		case 58:
-			goto tr986
+		case 69:
+			goto st750
+		case 101:
+			goto st750
 		}
 		goto tr418
 	st750:
@@ -16892,9 +16807,9 @@ tr755:
 		}
 	st_case_750:
 		switch data[p] {
-		case 87:
+		case 78:
 			goto st751
-		case 119:
+		case 110:
 			goto st751
 		}
 		goto tr418
@@ -16903,7 +16818,10 @@ tr755:
 			goto _test_eof751
 		}
 	st_case_751:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st752
+		case 116:
 			goto st752
 		}
 		goto tr418
@@ -16913,9 +16831,9 @@ tr755:
 		}
 	st_case_752:
 		switch data[p] {
-		case 65:
+		case 73:
 			goto st753
-		case 97:
+		case 105:
 			goto st753
 		}
 		goto tr418
@@ -16925,9 +16843,9 @@ tr755:
 		}
 	st_case_753:
 		switch data[p] {
-		case 85:
+		case 67:
 			goto st754
-		case 117:
+		case 99:
 			goto st754
 		}
 		goto tr418
@@ -16937,9 +16855,9 @@ tr755:
 		}
 	st_case_754:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st755
-		case 116:
+		case 97:
 			goto st755
 		}
 		goto tr418
@@ -16949,9 +16867,9 @@ tr755:
 		}
 	st_case_755:
 		switch data[p] {
-		case 72:
+		case 84:
 			goto st756
-		case 104:
+		case 116:
 			goto st756
 		}
 		goto tr418
@@ -16972,97 +16890,13 @@ tr755:
 			goto _test_eof757
 		}
 	st_case_757:
-		switch data[p] {
-		case 78:
-			goto st758
-		case 110:
-			goto st758
-		}
-		goto tr418
-	st758:
-		if p++; p == pe {
-			goto _test_eof758
-		}
-	st_case_758:
-		switch data[p] {
-		case 84:
-			goto st759
-		case 116:
-			goto st759
-		}
-		goto tr418
-	st759:
-		if p++; p == pe {
-			goto _test_eof759
-		}
-	st_case_759:
-		switch data[p] {
-		case 73:
-			goto st760
-		case 105:
-			goto st760
-		}
-		goto tr418
-	st760:
-		if p++; p == pe {
-			goto _test_eof760
-		}
-	st_case_760:
-		switch data[p] {
-		case 67:
-			goto st761
-		case 99:
-			goto st761
-		}
-		goto tr418
-	st761:
-		if p++; p == pe {
-			goto _test_eof761
-		}
-	st_case_761:
-		switch data[p] {
-		case 65:
-			goto st762
-		case 97:
-			goto st762
-		}
-		goto tr418
-	st762:
-		if p++; p == pe {
-			goto _test_eof762
-		}
-	st_case_762:
-		switch data[p] {
-		case 84:
-			goto st763
-		case 116:
-			goto st763
-		}
-		goto tr418
-	st763:
-		if p++; p == pe {
-			goto _test_eof763
-		}
-	st_case_763:
-		switch data[p] {
-		case 69:
-			goto st764
-		case 101:
-			goto st764
-		}
-		goto tr418
-	st764:
-		if p++; p == pe {
-			goto _test_eof764
-		}
-	st_case_764:
 		switch data[p] {
 		case 9:
-			goto tr1001
+			goto tr993
 		case 32:
-			goto tr1001
+			goto tr993
 		case 58:
-			goto tr1002
+			goto tr994
 		}
 		goto tr418
 	st_out:
@@ -17078,7 +16912,7 @@ tr755:
 	_test_eof11: cs = 11; goto _test_eof
 	_test_eof12: cs = 12; goto _test_eof
 	_test_eof13: cs = 13; goto _test_eof
-	_test_eof765: cs = 765; goto _test_eof
+	_test_eof758: cs = 758; goto _test_eof
 	_test_eof14: cs = 14; goto _test_eof
 	_test_eof15: cs = 15; goto _test_eof
 	_test_eof16: cs = 16; goto _test_eof
@@ -17110,7 +16944,7 @@ tr755:
 	_test_eof42: cs = 42; goto _test_eof
 	_test_eof43: cs = 43; goto _test_eof
 	_test_eof44: cs = 44; goto _test_eof
-	_test_eof766: cs = 766; goto _test_eof
+	_test_eof759: cs = 759; goto _test_eof
 	_test_eof45: cs = 45; goto _test_eof
 	_test_eof46: cs = 46; goto _test_eof
 	_test_eof47: cs = 47; goto _test_eof
@@ -17138,7 +16972,7 @@ tr755:
 	_test_eof69: cs = 69; goto _test_eof
 	_test_eof70: cs = 70; goto _test_eof
 	_test_eof71: cs = 71; goto _test_eof
-	_test_eof767: cs = 767; goto _test_eof
+	_test_eof760: cs = 760; goto _test_eof
 	_test_eof72: cs = 72; goto _test_eof
 	_test_eof73: cs = 73; goto _test_eof
 	_test_eof74: cs = 74; goto _test_eof
@@ -17182,7 +17016,7 @@ tr755:
 	_test_eof112: cs = 112; goto _test_eof
 	_test_eof113: cs = 113; goto _test_eof
 	_test_eof114: cs = 114; goto _test_eof
-	_test_eof768: cs = 768; goto _test_eof
+	_test_eof761: cs = 761; goto _test_eof
 	_test_eof115: cs = 115; goto _test_eof
 	_test_eof116: cs = 116; goto _test_eof
 	_test_eof117: cs = 117; goto _test_eof
@@ -17225,7 +17059,7 @@ tr755:
 	_test_eof154: cs = 154; goto _test_eof
 	_test_eof155: cs = 155; goto _test_eof
 	_test_eof156: cs = 156; goto _test_eof
-	_test_eof769: cs = 769; goto _test_eof
+	_test_eof762: cs = 762; goto _test_eof
 	_test_eof157: cs = 157; goto _test_eof
 	_test_eof158: cs = 158; goto _test_eof
 	_test_eof159: cs = 159; goto _test_eof
@@ -17265,7 +17099,7 @@ tr755:
 	_test_eof193: cs = 193; goto _test_eof
 	_test_eof194: cs = 194; goto _test_eof
 	_test_eof195: cs = 195; goto _test_eof
-	_test_eof770: cs = 770; goto _test_eof
+	_test_eof763: cs = 763; goto _test_eof
 	_test_eof196: cs = 196; goto _test_eof
 	_test_eof197: cs = 197; goto _test_eof
 	_test_eof198: cs = 198; goto _test_eof
@@ -17305,7 +17139,7 @@ tr755:
 	_test_eof232: cs = 232; goto _test_eof
 	_test_eof233: cs = 233; goto _test_eof
 	_test_eof234: cs = 234; goto _test_eof
-	_test_eof771: cs = 771; goto _test_eof
+	_test_eof764: cs = 764; goto _test_eof
 	_test_eof235: cs = 235; goto _test_eof
 	_test_eof236: cs = 236; goto _test_eof
 	_test_eof237: cs = 237; goto _test_eof
@@ -17318,25 +17152,25 @@ tr755:
 	_test_eof244: cs = 244; goto _test_eof
 	_test_eof245: cs = 245; goto _test_eof
 	_test_eof246: cs = 246; goto _test_eof
-	_test_eof772: cs = 772; goto _test_eof
+	_test_eof765: cs = 765; goto _test_eof
 	_test_eof247: cs = 247; goto _test_eof
 	_test_eof248: cs = 248; goto _test_eof
 	_test_eof249: cs = 249; goto _test_eof
-	_test_eof773: cs = 773; goto _test_eof
+	_test_eof766: cs = 766; goto _test_eof
 	_test_eof250: cs = 250; goto _test_eof
 	_test_eof251: cs = 251; goto _test_eof
-	_test_eof774: cs = 774; goto _test_eof
+	_test_eof767: cs = 767; goto _test_eof
 	_test_eof252: cs = 252; goto _test_eof
 	_test_eof253: cs = 253; goto _test_eof
 	_test_eof254: cs = 254; goto _test_eof
-	_test_eof775: cs = 775; goto _test_eof
-	_test_eof776: cs = 776; goto _test_eof
-	_test_eof777: cs = 777; goto _test_eof
+	_test_eof768: cs = 768; goto _test_eof
+	_test_eof769: cs = 769; goto _test_eof
+	_test_eof770: cs = 770; goto _test_eof
 	_test_eof255: cs = 255; goto _test_eof
 	_test_eof256: cs = 256; goto _test_eof
 	_test_eof257: cs = 257; goto _test_eof
 	_test_eof258: cs = 258; goto _test_eof
-	_test_eof778: cs = 778; goto _test_eof
+	_test_eof771: cs = 771; goto _test_eof
 	_test_eof259: cs = 259; goto _test_eof
 	_test_eof260: cs = 260; goto _test_eof
 	_test_eof261: cs = 261; goto _test_eof
@@ -17349,20 +17183,20 @@ tr755:
 	_test_eof268: cs = 268; goto _test_eof
 	_test_eof269: cs = 269; goto _test_eof
 	_test_eof270: cs = 270; goto _test_eof
-	_test_eof779: cs = 779; goto _test_eof
+	_test_eof772: cs = 772; goto _test_eof
 	_test_eof271: cs = 271; goto _test_eof
 	_test_eof272: cs = 272; goto _test_eof
 	_test_eof273: cs = 273; goto _test_eof
 	_test_eof274: cs = 274; goto _test_eof
 	_test_eof275: cs = 275; goto _test_eof
 	_test_eof276: cs = 276; goto _test_eof
-	_test_eof780: cs = 780; goto _test_eof
+	_test_eof773: cs = 773; goto _test_eof
 	_test_eof277: cs = 277; goto _test_eof
 	_test_eof278: cs = 278; goto _test_eof
 	_test_eof279: cs = 279; goto _test_eof
 	_test_eof280: cs = 280; goto _test_eof
 	_test_eof281: cs = 281; goto _test_eof
-	_test_eof781: cs = 781; goto _test_eof
+	_test_eof774: cs = 774; goto _test_eof
 	_test_eof282: cs = 282; goto _test_eof
 	_test_eof283: cs = 283; goto _test_eof
 	_test_eof284: cs = 284; goto _test_eof
@@ -17839,25 +17673,18 @@ tr755:
 	_test_eof755: cs = 755; goto _test_eof
 	_test_eof756: cs = 756; goto _test_eof
 	_test_eof757: cs = 757; goto _test_eof
-	_test_eof758: cs = 758; goto _test_eof
-	_test_eof759: cs = 759; goto _test_eof
-	_test_eof760: cs = 760; goto _test_eof
-	_test_eof761: cs = 761; goto _test_eof
-	_test_eof762: cs = 762; goto _test_eof
-	_test_eof763: cs = 763; goto _test_eof
-	_test_eof764: cs = 764; goto _test_eof
 
 	_test_eof: {}
 	if p == eof {
 		switch cs {
-		case 282, 283, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 371, 372, 373, 374, 375, 376, 386, 387, 388, 389, 390, 391, 392, 393, 394, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 435, 442, 443, 444, 445, 446, 447, 448, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 483, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 513, 514, 515, 516, 517, 518, 519, 520, 521, 522, 523, 524, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 543, 544, 545, 546, 547, 548, 549, 550, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 728, 729, 730, 731, 732, 733, 734, 735, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756, 757, 758, 759, 760, 761, 762, 763, 764:
+		case 282, 283, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 371, 372, 373, 374, 375, 376, 386, 387, 388, 389, 390, 391, 392, 393, 394, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 435, 442, 443, 444, 445, 446, 447, 448, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 483, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 515, 516, 517, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 543, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 728, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756, 757:
 //line sip.rl:171
 
 	p = ( mark) - 1
 
 	{goto st273 }
 
-//line msg_parse.go:17852
+//line msg_parse.go:17679
 		}
 	}
 
diff --git a/sip/sip.rl b/sip/sip.rl
index 947346d..82d70b2 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -492,9 +492,9 @@ sname    = "Accept"i %{value=&msg.Accept}
 cheader  = ("Call-ID"i | "i"i) $!gxh HCOLON cid >mark %CallID
          | ("Content-Length"i | "l"i) $!gxh HCOLON digit+ >{clen=0} @ContentLength
          | "CSeq"i $!gxh HCOLON (digit+ @CSeq) LWS token >mark %CSeqMethod
-         | ("Expires"i | "l"i) $!gxh HCOLON digit+ >{msg.Expires=0} @Expires
-         | ("Max-Forwards"i | "l"i) $!gxh HCOLON digit+ >{msg.MaxForwards=0} @MaxForwards
-         | ("Min-Expires"i | "l"i) $!gxh HCOLON digit+ >{msg.MinExpires=0} @MinExpires
+         | "Expires"i $!gxh HCOLON digit+ >{msg.Expires=0} @Expires
+         | "Max-Forwards"i $!gxh HCOLON digit+ >{msg.MaxForwards=0} @MaxForwards
+         | "Min-Expires"i $!gxh HCOLON digit+ >{msg.MinExpires=0} @MinExpires
          ;
 
 # Header Parsing
-- 
2.43.0


From ed93a16f5100cdfdee98fb81ed484e24ce21a1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:25 +0000
Subject: [PATCH 40/58] fix: addresses without angle brackets were rejected
 when whitespace followed a semicolon or comma

---
 sip/msg_parse.go | 7557 +++++++++++++++++++++-------------------------
 sip/sip.rl       |    2 +-
 2 files changed, 3433 insertions(+), 4126 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index a3bd9c9..cbf02f4 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -30,7 +30,7 @@ import (
 
 //line msg_parse.go:28
 const msg_start int = 1
-const msg_first_final int = 758
+const msg_first_final int = 748
 const msg_error int = 0
 
 const msg_en_ctype int = 34
@@ -39,10 +39,10 @@ const msg_en_via int = 103
 const msg_en_addr_param int = 153
 const msg_en_addr_angled int = 188
 const msg_en_addr_uri int = 229
-const msg_en_addr int = 256
-const msg_en_value int = 263
-const msg_en_xheader int = 273
-const msg_en_header int = 280
+const msg_en_addr int = 246
+const msg_en_value int = 253
+const msg_en_xheader int = 263
+const msg_en_header int = 270
 const msg_en_main int = 1
 
 
@@ -116,8 +116,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_12
 	case 13:
 		goto st_case_13
-	case 758:
-		goto st_case_758
+	case 748:
+		goto st_case_748
 	case 14:
 		goto st_case_14
 	case 15:
@@ -180,8 +180,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_43
 	case 44:
 		goto st_case_44
-	case 759:
-		goto st_case_759
+	case 749:
+		goto st_case_749
 	case 45:
 		goto st_case_45
 	case 46:
@@ -236,8 +236,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_70
 	case 71:
 		goto st_case_71
-	case 760:
-		goto st_case_760
+	case 750:
+		goto st_case_750
 	case 72:
 		goto st_case_72
 	case 73:
@@ -324,8 +324,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_113
 	case 114:
 		goto st_case_114
-	case 761:
-		goto st_case_761
+	case 751:
+		goto st_case_751
 	case 115:
 		goto st_case_115
 	case 116:
@@ -410,8 +410,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_155
 	case 156:
 		goto st_case_156
-	case 762:
-		goto st_case_762
+	case 752:
+		goto st_case_752
 	case 157:
 		goto st_case_157
 	case 158:
@@ -490,8 +490,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_194
 	case 195:
 		goto st_case_195
-	case 763:
-		goto st_case_763
+	case 753:
+		goto st_case_753
 	case 196:
 		goto st_case_196
 	case 197:
@@ -570,8 +570,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_233
 	case 234:
 		goto st_case_234
-	case 764:
-		goto st_case_764
+	case 754:
+		goto st_case_754
 	case 235:
 		goto st_case_235
 	case 236:
@@ -596,34 +596,24 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_245
 	case 246:
 		goto st_case_246
-	case 765:
-		goto st_case_765
 	case 247:
 		goto st_case_247
 	case 248:
 		goto st_case_248
+	case 755:
+		goto st_case_755
 	case 249:
 		goto st_case_249
-	case 766:
-		goto st_case_766
 	case 250:
 		goto st_case_250
 	case 251:
 		goto st_case_251
-	case 767:
-		goto st_case_767
 	case 252:
 		goto st_case_252
 	case 253:
 		goto st_case_253
 	case 254:
 		goto st_case_254
-	case 768:
-		goto st_case_768
-	case 769:
-		goto st_case_769
-	case 770:
-		goto st_case_770
 	case 255:
 		goto st_case_255
 	case 256:
@@ -632,12 +622,12 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_257
 	case 258:
 		goto st_case_258
-	case 771:
-		goto st_case_771
 	case 259:
 		goto st_case_259
 	case 260:
 		goto st_case_260
+	case 756:
+		goto st_case_756
 	case 261:
 		goto st_case_261
 	case 262:
@@ -650,6 +640,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_265
 	case 266:
 		goto st_case_266
+	case 757:
+		goto st_case_757
 	case 267:
 		goto st_case_267
 	case 268:
@@ -658,10 +650,10 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_269
 	case 270:
 		goto st_case_270
-	case 772:
-		goto st_case_772
 	case 271:
 		goto st_case_271
+	case 758:
+		goto st_case_758
 	case 272:
 		goto st_case_272
 	case 273:
@@ -672,8 +664,6 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_275
 	case 276:
 		goto st_case_276
-	case 773:
-		goto st_case_773
 	case 277:
 		goto st_case_277
 	case 278:
@@ -684,8 +674,6 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_280
 	case 281:
 		goto st_case_281
-	case 774:
-		goto st_case_774
 	case 282:
 		goto st_case_282
 	case 283:
@@ -1618,26 +1606,6 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_746
 	case 747:
 		goto st_case_747
-	case 748:
-		goto st_case_748
-	case 749:
-		goto st_case_749
-	case 750:
-		goto st_case_750
-	case 751:
-		goto st_case_751
-	case 752:
-		goto st_case_752
-	case 753:
-		goto st_case_753
-	case 754:
-		goto st_case_754
-	case 755:
-		goto st_case_755
-	case 756:
-		goto st_case_756
-	case 757:
-		goto st_case_757
 	}
 	goto st_out
 	st_case_1:
@@ -1676,15 +1644,15 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 			goto tr0
 		}
 		goto st0
-tr418:
+tr398:
 //line sip.rl:171
 
 	p = ( mark) - 1
 
-	{goto st273 }
+	{goto st263 }
 
 	goto st0
-//line msg_parse.go:1679
+//line msg_parse.go:1647
 st_case_0:
 	st0:
 		cs = 0
@@ -1700,7 +1668,7 @@ tr0:
 			goto _test_eof2
 		}
 	st_case_2:
-//line msg_parse.go:1695
+//line msg_parse.go:1663
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -1747,7 +1715,7 @@ tr3:
 			goto _test_eof3
 		}
 	st_case_3:
-//line msg_parse.go:1742
+//line msg_parse.go:1710
 		if data[p] == 32 {
 			goto st0
 		}
@@ -1763,7 +1731,7 @@ tr5:
 			goto _test_eof4
 		}
 	st_case_4:
-//line msg_parse.go:1758
+//line msg_parse.go:1726
 		if data[p] == 32 {
 			goto tr7
 		}
@@ -1780,7 +1748,7 @@ tr7:
 			goto _test_eof5
 		}
 	st_case_5:
-//line msg_parse.go:1775
+//line msg_parse.go:1743
 		if data[p] == 83 {
 			goto st6
 		}
@@ -1832,7 +1800,7 @@ tr12:
 			goto _test_eof10
 		}
 	st_case_10:
-//line msg_parse.go:1827
+//line msg_parse.go:1795
 		if data[p] == 46 {
 			goto st11
 		}
@@ -1860,7 +1828,7 @@ tr14:
 			goto _test_eof12
 		}
 	st_case_12:
-//line msg_parse.go:1855
+//line msg_parse.go:1823
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -1896,21 +1864,21 @@ tr43:
 			goto _test_eof13
 		}
 	st_case_13:
-//line msg_parse.go:1891
+//line msg_parse.go:1859
 		if data[p] == 10 {
 			goto tr16
 		}
 		goto st0
 tr16:
 //line sip.rl:257
- {goto st280 } 
-	goto st758
-	st758:
+ {goto st270 } 
+	goto st748
+	st748:
 		if p++; p == pe {
-			goto _test_eof758
+			goto _test_eof748
 		}
-	st_case_758:
-//line msg_parse.go:1905
+	st_case_748:
+//line msg_parse.go:1873
 		goto st0
 tr2:
 //line sip.rl:80
@@ -1923,7 +1891,7 @@ tr2:
 			goto _test_eof14
 		}
 	st_case_14:
-//line msg_parse.go:1918
+//line msg_parse.go:1886
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -2060,7 +2028,7 @@ tr20:
 			goto _test_eof18
 		}
 	st_case_18:
-//line msg_parse.go:2055
+//line msg_parse.go:2023
 		if data[p] == 46 {
 			goto st19
 		}
@@ -2088,7 +2056,7 @@ tr22:
 			goto _test_eof20
 		}
 	st_case_20:
-//line msg_parse.go:2083
+//line msg_parse.go:2051
 		if data[p] == 32 {
 			goto st21
 		}
@@ -2116,7 +2084,7 @@ tr24:
 			goto _test_eof22
 		}
 	st_case_22:
-//line msg_parse.go:2111
+//line msg_parse.go:2079
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr25
 		}
@@ -2132,7 +2100,7 @@ tr25:
 			goto _test_eof23
 		}
 	st_case_23:
-//line msg_parse.go:2127
+//line msg_parse.go:2095
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr26
 		}
@@ -2148,7 +2116,7 @@ tr26:
 			goto _test_eof24
 		}
 	st_case_24:
-//line msg_parse.go:2143
+//line msg_parse.go:2111
 		if data[p] == 32 {
 			goto st25
 		}
@@ -2251,7 +2219,7 @@ tr45:
 			goto _test_eof26
 		}
 	st_case_26:
-//line msg_parse.go:2246
+//line msg_parse.go:2214
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2325,7 +2293,7 @@ tr29:
 			goto _test_eof27
 		}
 	st_case_27:
-//line msg_parse.go:2320
+//line msg_parse.go:2288
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2350,7 +2318,7 @@ tr44:
 			goto _test_eof28
 		}
 	st_case_28:
-//line msg_parse.go:2345
+//line msg_parse.go:2313
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2387,7 +2355,7 @@ tr38:
 			goto _test_eof29
 		}
 	st_case_29:
-//line msg_parse.go:2382
+//line msg_parse.go:2350
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr36
 		}
@@ -2415,7 +2383,7 @@ tr39:
 			goto _test_eof30
 		}
 	st_case_30:
-//line msg_parse.go:2410
+//line msg_parse.go:2378
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr38
 		}
@@ -2443,7 +2411,7 @@ tr40:
 			goto _test_eof31
 		}
 	st_case_31:
-//line msg_parse.go:2438
+//line msg_parse.go:2406
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr39
 		}
@@ -2471,7 +2439,7 @@ tr41:
 			goto _test_eof32
 		}
 	st_case_32:
-//line msg_parse.go:2466
+//line msg_parse.go:2434
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr40
 		}
@@ -2499,7 +2467,7 @@ tr42:
 			goto _test_eof33
 		}
 	st_case_33:
-//line msg_parse.go:2494
+//line msg_parse.go:2462
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr41
 		}
@@ -2553,7 +2521,7 @@ tr46:
 			goto _test_eof35
 		}
 	st_case_35:
-//line msg_parse.go:2548
+//line msg_parse.go:2516
 		switch data[p] {
 		case 33:
 			goto st35
@@ -2688,7 +2656,7 @@ tr50:
 			goto _test_eof38
 		}
 	st_case_38:
-//line msg_parse.go:2683
+//line msg_parse.go:2651
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2718,7 +2686,7 @@ tr51:
 			goto _test_eof39
 		}
 	st_case_39:
-//line msg_parse.go:2713
+//line msg_parse.go:2681
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2960,21 +2928,21 @@ tr52:
 			goto _test_eof44
 		}
 	st_case_44:
-//line msg_parse.go:2955
+//line msg_parse.go:2923
 		if data[p] == 10 {
 			goto tr66
 		}
 		goto st0
 tr66:
 //line sip.rl:257
- {goto st280 } 
-	goto st759
-	st759:
+ {goto st270 } 
+	goto st749
+	st749:
 		if p++; p == pe {
-			goto _test_eof759
+			goto _test_eof749
 		}
-	st_case_759:
-//line msg_parse.go:2969
+	st_case_749:
+//line msg_parse.go:2937
 		goto st0
 tr53:
 //line sip.rl:228
@@ -2987,7 +2955,7 @@ tr53:
 			goto _test_eof45
 		}
 	st_case_45:
-//line msg_parse.go:2982
+//line msg_parse.go:2950
 		if data[p] == 10 {
 			goto st46
 		}
@@ -3090,7 +3058,7 @@ tr78:
 			goto _test_eof49
 		}
 	st_case_49:
-//line msg_parse.go:3085
+//line msg_parse.go:3053
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3146,7 +3114,7 @@ tr70:
 			goto _test_eof50
 		}
 	st_case_50:
-//line msg_parse.go:3141
+//line msg_parse.go:3109
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3178,7 +3146,7 @@ tr71:
 			goto _test_eof51
 		}
 	st_case_51:
-//line msg_parse.go:3173
+//line msg_parse.go:3141
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -3215,7 +3183,7 @@ tr81:
 			goto _test_eof52
 		}
 	st_case_52:
-//line msg_parse.go:3210
+//line msg_parse.go:3178
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr78
 		}
@@ -3243,7 +3211,7 @@ tr82:
 			goto _test_eof53
 		}
 	st_case_53:
-//line msg_parse.go:3238
+//line msg_parse.go:3206
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr81
 		}
@@ -3271,7 +3239,7 @@ tr83:
 			goto _test_eof54
 		}
 	st_case_54:
-//line msg_parse.go:3266
+//line msg_parse.go:3234
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr82
 		}
@@ -3299,7 +3267,7 @@ tr84:
 			goto _test_eof55
 		}
 	st_case_55:
-//line msg_parse.go:3294
+//line msg_parse.go:3262
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr83
 		}
@@ -3327,7 +3295,7 @@ tr85:
 			goto _test_eof56
 		}
 	st_case_56:
-//line msg_parse.go:3322
+//line msg_parse.go:3290
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr84
 		}
@@ -3355,7 +3323,7 @@ tr86:
 			goto _test_eof57
 		}
 	st_case_57:
-//line msg_parse.go:3350
+//line msg_parse.go:3318
 		if data[p] == 10 {
 			goto tr87
 		}
@@ -3372,7 +3340,7 @@ tr87:
 			goto _test_eof58
 		}
 	st_case_58:
-//line msg_parse.go:3367
+//line msg_parse.go:3335
 		switch data[p] {
 		case 9:
 			goto tr78
@@ -3596,7 +3564,7 @@ tr94:
 			goto _test_eof69
 		}
 	st_case_69:
-//line msg_parse.go:3591
+//line msg_parse.go:3559
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3657,7 +3625,7 @@ tr95:
 			goto _test_eof70
 		}
 	st_case_70:
-//line msg_parse.go:3652
+//line msg_parse.go:3620
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3691,7 +3659,7 @@ tr97:
 			goto _test_eof71
 		}
 	st_case_71:
-//line msg_parse.go:3686
+//line msg_parse.go:3654
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3740,7 +3708,7 @@ tr107:
 
 //line sip.rl:259
  {goto st103 } 
-	goto st760
+	goto st750
 tr111:
 //line sip.rl:167
 
@@ -3757,7 +3725,7 @@ tr111:
 
 //line sip.rl:260
  {goto st68 } 
-	goto st760
+	goto st750
 tr123:
 //line sip.rl:167
 
@@ -3770,14 +3738,14 @@ tr123:
 	via = nil
 
 //line sip.rl:257
- {goto st280 } 
-	goto st760
-	st760:
+ {goto st270 } 
+	goto st750
+	st750:
 		if p++; p == pe {
-			goto _test_eof760
+			goto _test_eof750
 		}
-	st_case_760:
-//line msg_parse.go:3772
+	st_case_750:
+//line msg_parse.go:3740
 		goto st0
 	st72:
 		if p++; p == pe {
@@ -3823,7 +3791,7 @@ tr98:
 			goto _test_eof75
 		}
 	st_case_75:
-//line msg_parse.go:3818
+//line msg_parse.go:3786
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3894,7 +3862,7 @@ tr99:
 			goto _test_eof79
 		}
 	st_case_79:
-//line msg_parse.go:3889
+//line msg_parse.go:3857
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3957,7 +3925,7 @@ tr115:
 			goto _test_eof80
 		}
 	st_case_80:
-//line msg_parse.go:3952
+//line msg_parse.go:3920
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4080,7 +4048,7 @@ tr100:
 			goto _test_eof85
 		}
 	st_case_85:
-//line msg_parse.go:4075
+//line msg_parse.go:4043
 		if data[p] == 10 {
 			goto tr123
 		}
@@ -4157,7 +4125,7 @@ tr133:
 			goto _test_eof87
 		}
 	st_case_87:
-//line msg_parse.go:4152
+//line msg_parse.go:4120
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4213,7 +4181,7 @@ tr125:
 			goto _test_eof88
 		}
 	st_case_88:
-//line msg_parse.go:4208
+//line msg_parse.go:4176
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4247,7 +4215,7 @@ tr126:
 			goto _test_eof89
 		}
 	st_case_89:
-//line msg_parse.go:4242
+//line msg_parse.go:4210
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -4284,7 +4252,7 @@ tr136:
 			goto _test_eof90
 		}
 	st_case_90:
-//line msg_parse.go:4279
+//line msg_parse.go:4247
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr133
 		}
@@ -4312,7 +4280,7 @@ tr137:
 			goto _test_eof91
 		}
 	st_case_91:
-//line msg_parse.go:4307
+//line msg_parse.go:4275
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr136
 		}
@@ -4340,7 +4308,7 @@ tr138:
 			goto _test_eof92
 		}
 	st_case_92:
-//line msg_parse.go:4335
+//line msg_parse.go:4303
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr137
 		}
@@ -4368,7 +4336,7 @@ tr139:
 			goto _test_eof93
 		}
 	st_case_93:
-//line msg_parse.go:4363
+//line msg_parse.go:4331
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr138
 		}
@@ -4396,7 +4364,7 @@ tr140:
 			goto _test_eof94
 		}
 	st_case_94:
-//line msg_parse.go:4391
+//line msg_parse.go:4359
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr139
 		}
@@ -4424,7 +4392,7 @@ tr141:
 			goto _test_eof95
 		}
 	st_case_95:
-//line msg_parse.go:4419
+//line msg_parse.go:4387
 		if data[p] == 10 {
 			goto tr142
 		}
@@ -4441,7 +4409,7 @@ tr142:
 			goto _test_eof96
 		}
 	st_case_96:
-//line msg_parse.go:4436
+//line msg_parse.go:4404
 		switch data[p] {
 		case 9:
 			goto tr133
@@ -4527,7 +4495,7 @@ tr101:
 			goto _test_eof100
 		}
 	st_case_100:
-//line msg_parse.go:4522
+//line msg_parse.go:4490
 		if data[p] == 10 {
 			goto st101
 		}
@@ -4611,7 +4579,7 @@ tr147:
 			goto _test_eof104
 		}
 	st_case_104:
-//line msg_parse.go:4606
+//line msg_parse.go:4574
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4666,7 +4634,7 @@ tr148:
 			goto _test_eof105
 		}
 	st_case_105:
-//line msg_parse.go:4661
+//line msg_parse.go:4629
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4696,7 +4664,7 @@ tr150:
 			goto _test_eof106
 		}
 	st_case_106:
-//line msg_parse.go:4691
+//line msg_parse.go:4659
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4754,7 +4722,7 @@ tr155:
 			goto _test_eof107
 		}
 	st_case_107:
-//line msg_parse.go:4749
+//line msg_parse.go:4717
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4809,7 +4777,7 @@ tr157:
 			goto _test_eof108
 		}
 	st_case_108:
-//line msg_parse.go:4804
+//line msg_parse.go:4772
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4839,7 +4807,7 @@ tr159:
 			goto _test_eof109
 		}
 	st_case_109:
-//line msg_parse.go:4834
+//line msg_parse.go:4802
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4897,7 +4865,7 @@ tr164:
 			goto _test_eof110
 		}
 	st_case_110:
-//line msg_parse.go:4892
+//line msg_parse.go:4860
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4955,7 +4923,7 @@ tr166:
 			goto _test_eof111
 		}
 	st_case_111:
-//line msg_parse.go:4950
+//line msg_parse.go:4918
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5002,7 +4970,7 @@ tr170:
 			goto _test_eof112
 		}
 	st_case_112:
-//line msg_parse.go:4997
+//line msg_parse.go:4965
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5055,7 +5023,7 @@ tr173:
 			goto _test_eof113
 		}
 	st_case_113:
-//line msg_parse.go:5050
+//line msg_parse.go:5018
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5089,7 +5057,7 @@ tr174:
 			goto _test_eof114
 		}
 	st_case_114:
-//line msg_parse.go:5084
+//line msg_parse.go:5052
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5134,7 +5102,7 @@ tr185:
 
 //line sip.rl:259
  {goto st103 } 
-	goto st761
+	goto st751
 tr194:
 //line sip.rl:72
 
@@ -5147,7 +5115,7 @@ tr194:
 
 //line sip.rl:260
  {goto st68 } 
-	goto st761
+	goto st751
 tr200:
 //line sip.rl:141
 
@@ -5156,14 +5124,14 @@ tr200:
 	via = nil
 
 //line sip.rl:257
- {goto st280 } 
-	goto st761
-	st761:
+ {goto st270 } 
+	goto st751
+	st751:
 		if p++; p == pe {
-			goto _test_eof761
+			goto _test_eof751
 		}
-	st_case_761:
-//line msg_parse.go:5158
+	st_case_751:
+//line msg_parse.go:5126
 		goto st0
 	st115:
 		if p++; p == pe {
@@ -5209,7 +5177,7 @@ tr176:
 			goto _test_eof118
 		}
 	st_case_118:
-//line msg_parse.go:5204
+//line msg_parse.go:5172
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5240,7 +5208,7 @@ tr189:
 			goto _test_eof119
 		}
 	st_case_119:
-//line msg_parse.go:5235
+//line msg_parse.go:5203
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5302,7 +5270,7 @@ tr177:
 			goto _test_eof121
 		}
 	st_case_121:
-//line msg_parse.go:5297
+//line msg_parse.go:5265
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5410,7 +5378,7 @@ tr178:
 			goto _test_eof128
 		}
 	st_case_128:
-//line msg_parse.go:5405
+//line msg_parse.go:5373
 		if data[p] == 10 {
 			goto tr200
 		}
@@ -5462,7 +5430,7 @@ tr179:
 			goto _test_eof132
 		}
 	st_case_132:
-//line msg_parse.go:5457
+//line msg_parse.go:5425
 		if data[p] == 10 {
 			goto st133
 		}
@@ -5529,7 +5497,7 @@ tr205:
 			goto _test_eof136
 		}
 	st_case_136:
-//line msg_parse.go:5524
+//line msg_parse.go:5492
 		switch data[p] {
 		case 46:
 			goto st136
@@ -5560,7 +5528,7 @@ tr207:
 			goto _test_eof137
 		}
 	st_case_137:
-//line msg_parse.go:5555
+//line msg_parse.go:5523
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5596,7 +5564,7 @@ tr168:
 			goto _test_eof138
 		}
 	st_case_138:
-//line msg_parse.go:5591
+//line msg_parse.go:5559
 		if data[p] == 10 {
 			goto st139
 		}
@@ -5718,7 +5686,7 @@ tr160:
 			goto _test_eof144
 		}
 	st_case_144:
-//line msg_parse.go:5713
+//line msg_parse.go:5681
 		if data[p] == 10 {
 			goto st145
 		}
@@ -5823,7 +5791,7 @@ tr151:
 			goto _test_eof150
 		}
 	st_case_150:
-//line msg_parse.go:5818
+//line msg_parse.go:5786
 		if data[p] == 10 {
 			goto st151
 		}
@@ -5907,7 +5875,7 @@ tr218:
 			goto _test_eof154
 		}
 	st_case_154:
-//line msg_parse.go:5902
+//line msg_parse.go:5870
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5968,7 +5936,7 @@ tr219:
 			goto _test_eof155
 		}
 	st_case_155:
-//line msg_parse.go:5963
+//line msg_parse.go:5931
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6002,7 +5970,7 @@ tr221:
 			goto _test_eof156
 		}
 	st_case_156:
-//line msg_parse.go:5997
+//line msg_parse.go:5965
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6046,8 +6014,8 @@ tr231:
 
 
 //line sip.rl:252
- {goto st256 } 
-	goto st762
+ {goto st246 } 
+	goto st752
 tr235:
 //line sip.rl:210
 
@@ -6060,7 +6028,7 @@ tr235:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st762
+	goto st752
 tr247:
 //line sip.rl:210
 
@@ -6073,14 +6041,14 @@ tr247:
 	addr = nil
 
 //line sip.rl:257
- {goto st280 } 
-	goto st762
-	st762:
+ {goto st270 } 
+	goto st752
+	st752:
 		if p++; p == pe {
-			goto _test_eof762
+			goto _test_eof752
 		}
-	st_case_762:
-//line msg_parse.go:6075
+	st_case_752:
+//line msg_parse.go:6043
 		goto st0
 	st157:
 		if p++; p == pe {
@@ -6126,7 +6094,7 @@ tr222:
 			goto _test_eof160
 		}
 	st_case_160:
-//line msg_parse.go:6121
+//line msg_parse.go:6089
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6197,7 +6165,7 @@ tr223:
 			goto _test_eof164
 		}
 	st_case_164:
-//line msg_parse.go:6192
+//line msg_parse.go:6160
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6260,7 +6228,7 @@ tr239:
 			goto _test_eof165
 		}
 	st_case_165:
-//line msg_parse.go:6255
+//line msg_parse.go:6223
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6383,7 +6351,7 @@ tr224:
 			goto _test_eof170
 		}
 	st_case_170:
-//line msg_parse.go:6378
+//line msg_parse.go:6346
 		if data[p] == 10 {
 			goto tr247
 		}
@@ -6460,7 +6428,7 @@ tr257:
 			goto _test_eof172
 		}
 	st_case_172:
-//line msg_parse.go:6455
+//line msg_parse.go:6423
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6516,7 +6484,7 @@ tr249:
 			goto _test_eof173
 		}
 	st_case_173:
-//line msg_parse.go:6511
+//line msg_parse.go:6479
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6550,7 +6518,7 @@ tr250:
 			goto _test_eof174
 		}
 	st_case_174:
-//line msg_parse.go:6545
+//line msg_parse.go:6513
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -6587,7 +6555,7 @@ tr260:
 			goto _test_eof175
 		}
 	st_case_175:
-//line msg_parse.go:6582
+//line msg_parse.go:6550
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr257
 		}
@@ -6615,7 +6583,7 @@ tr261:
 			goto _test_eof176
 		}
 	st_case_176:
-//line msg_parse.go:6610
+//line msg_parse.go:6578
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr260
 		}
@@ -6643,7 +6611,7 @@ tr262:
 			goto _test_eof177
 		}
 	st_case_177:
-//line msg_parse.go:6638
+//line msg_parse.go:6606
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr261
 		}
@@ -6671,7 +6639,7 @@ tr263:
 			goto _test_eof178
 		}
 	st_case_178:
-//line msg_parse.go:6666
+//line msg_parse.go:6634
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr262
 		}
@@ -6699,7 +6667,7 @@ tr264:
 			goto _test_eof179
 		}
 	st_case_179:
-//line msg_parse.go:6694
+//line msg_parse.go:6662
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr263
 		}
@@ -6727,7 +6695,7 @@ tr265:
 			goto _test_eof180
 		}
 	st_case_180:
-//line msg_parse.go:6722
+//line msg_parse.go:6690
 		if data[p] == 10 {
 			goto tr266
 		}
@@ -6744,7 +6712,7 @@ tr266:
 			goto _test_eof181
 		}
 	st_case_181:
-//line msg_parse.go:6739
+//line msg_parse.go:6707
 		switch data[p] {
 		case 9:
 			goto tr257
@@ -6830,7 +6798,7 @@ tr225:
 			goto _test_eof185
 		}
 	st_case_185:
-//line msg_parse.go:6825
+//line msg_parse.go:6793
 		if data[p] == 10 {
 			goto st186
 		}
@@ -6931,7 +6899,7 @@ tr330:
 			goto _test_eof189
 		}
 	st_case_189:
-//line msg_parse.go:6926
+//line msg_parse.go:6894
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6971,7 +6939,7 @@ tr331:
 			goto _test_eof190
 		}
 	st_case_190:
-//line msg_parse.go:6966
+//line msg_parse.go:6934
 		switch {
 		case data[p] > 90:
 			if 97 <= data[p] && data[p] <= 122 {
@@ -6992,7 +6960,7 @@ tr276:
 			goto _test_eof191
 		}
 	st_case_191:
-//line msg_parse.go:6987
+//line msg_parse.go:6955
 		switch data[p] {
 		case 43:
 			goto st191
@@ -7089,7 +7057,7 @@ tr280:
 			goto _test_eof194
 		}
 	st_case_194:
-//line msg_parse.go:7084
+//line msg_parse.go:7052
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7156,8 +7124,8 @@ tr286:
 
 
 //line sip.rl:252
- {goto st256 } 
-	goto st763
+ {goto st246 } 
+	goto st753
 tr290:
 //line sip.rl:72
 
@@ -7166,7 +7134,7 @@ tr290:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st763
+	goto st753
 tr294:
 //line sip.rl:214
 
@@ -7175,14 +7143,14 @@ tr294:
 	addr = nil
 
 //line sip.rl:257
- {goto st280 } 
-	goto st763
-	st763:
+ {goto st270 } 
+	goto st753
+	st753:
 		if p++; p == pe {
-			goto _test_eof763
+			goto _test_eof753
 		}
-	st_case_763:
-//line msg_parse.go:7177
+	st_case_753:
+//line msg_parse.go:7145
 		goto st0
 	st196:
 		if p++; p == pe {
@@ -7396,7 +7364,7 @@ tr332:
 			goto _test_eof210
 		}
 	st_case_210:
-//line msg_parse.go:7391
+//line msg_parse.go:7359
 		if data[p] == 10 {
 			goto st211
 		}
@@ -7438,7 +7406,7 @@ tr272:
 			goto _test_eof213
 		}
 	st_case_213:
-//line msg_parse.go:7433
+//line msg_parse.go:7401
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7500,7 +7468,7 @@ tr305:
 			goto _test_eof214
 		}
 	st_case_214:
-//line msg_parse.go:7495
+//line msg_parse.go:7463
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7564,7 +7532,7 @@ tr307:
 			goto _test_eof215
 		}
 	st_case_215:
-//line msg_parse.go:7559
+//line msg_parse.go:7527
 		if data[p] == 10 {
 			goto st216
 		}
@@ -7596,7 +7564,7 @@ tr310:
 			goto _test_eof217
 		}
 	st_case_217:
-//line msg_parse.go:7591
+//line msg_parse.go:7559
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7656,7 +7624,7 @@ tr273:
 			goto _test_eof218
 		}
 	st_case_218:
-//line msg_parse.go:7651
+//line msg_parse.go:7619
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7724,7 +7692,7 @@ tr321:
 			goto _test_eof219
 		}
 	st_case_219:
-//line msg_parse.go:7719
+//line msg_parse.go:7687
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7780,7 +7748,7 @@ tr313:
 			goto _test_eof220
 		}
 	st_case_220:
-//line msg_parse.go:7775
+//line msg_parse.go:7743
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7810,7 +7778,7 @@ tr314:
 			goto _test_eof221
 		}
 	st_case_221:
-//line msg_parse.go:7805
+//line msg_parse.go:7773
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -7847,7 +7815,7 @@ tr324:
 			goto _test_eof222
 		}
 	st_case_222:
-//line msg_parse.go:7842
+//line msg_parse.go:7810
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr321
 		}
@@ -7875,7 +7843,7 @@ tr325:
 			goto _test_eof223
 		}
 	st_case_223:
-//line msg_parse.go:7870
+//line msg_parse.go:7838
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr324
 		}
@@ -7903,7 +7871,7 @@ tr326:
 			goto _test_eof224
 		}
 	st_case_224:
-//line msg_parse.go:7898
+//line msg_parse.go:7866
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr325
 		}
@@ -7931,7 +7899,7 @@ tr327:
 			goto _test_eof225
 		}
 	st_case_225:
-//line msg_parse.go:7926
+//line msg_parse.go:7894
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr326
 		}
@@ -7959,7 +7927,7 @@ tr328:
 			goto _test_eof226
 		}
 	st_case_226:
-//line msg_parse.go:7954
+//line msg_parse.go:7922
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr327
 		}
@@ -7987,7 +7955,7 @@ tr329:
 			goto _test_eof227
 		}
 	st_case_227:
-//line msg_parse.go:7982
+//line msg_parse.go:7950
 		if data[p] == 10 {
 			goto tr333
 		}
@@ -8004,7 +7972,7 @@ tr333:
 			goto _test_eof228
 		}
 	st_case_228:
-//line msg_parse.go:7999
+//line msg_parse.go:7967
 		switch data[p] {
 		case 9:
 			goto tr321
@@ -8073,12 +8041,17 @@ tr333:
 			goto st232
 		}
 		switch {
-		case data[p] < 63:
-			if 36 <= data[p] && data[p] <= 59 {
+		case data[p] < 45:
+			if 36 <= data[p] && data[p] <= 43 {
 				goto st232
 			}
-		case data[p] > 91:
-			if 97 <= data[p] && data[p] <= 122 {
+		case data[p] > 58:
+			switch {
+			case data[p] > 91:
+				if 97 <= data[p] && data[p] <= 122 {
+					goto st232
+				}
+			case data[p] >= 64:
 				goto st232
 			}
 		default:
@@ -8122,7 +8095,7 @@ tr333:
 			goto tr341
 		}
 		switch {
-		case _widec < 63:
+		case _widec < 64:
 			if 36 <= _widec && _widec <= 58 {
 				goto st232
 			}
@@ -8146,7 +8119,7 @@ tr337:
 			goto _test_eof233
 		}
 	st_case_233:
-//line msg_parse.go:8141
+//line msg_parse.go:8114
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8167,11 +8140,19 @@ tr337:
 			goto st242
 		}
 		goto st0
+tr338:
+//line sip.rl:205
+
+	addr.Uri, err = ParseURI(data[mark:p])
+	if err != nil { return nil, err }
+
+	goto st234
 	st234:
 		if p++; p == pe {
 			goto _test_eof234
 		}
 	st_case_234:
+//line msg_parse.go:8147
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8211,8 +8192,8 @@ tr346:
 
 
 //line sip.rl:252
- {goto st256 } 
-	goto st764
+ {goto st246 } 
+	goto st754
 tr350:
 //line sip.rl:72
 
@@ -8221,8 +8202,8 @@ tr350:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st764
-tr376:
+	goto st754
+tr356:
 //line sip.rl:214
 
 	*addrp = addr
@@ -8230,14 +8211,14 @@ tr376:
 	addr = nil
 
 //line sip.rl:257
- {goto st280 } 
-	goto st764
-	st764:
+ {goto st270 } 
+	goto st754
+	st754:
 		if p++; p == pe {
-			goto _test_eof764
+			goto _test_eof754
 		}
-	st_case_764:
-//line msg_parse.go:8232
+	st_case_754:
+//line msg_parse.go:8213
 		goto st0
 	st235:
 		if p++; p == pe {
@@ -8272,11 +8253,19 @@ tr376:
 			goto st237
 		}
 		goto tr346
+tr339:
+//line sip.rl:205
+
+	addr.Uri, err = ParseURI(data[mark:p])
+	if err != nil { return nil, err }
+
+	goto st238
 	st238:
 		if p++; p == pe {
 			goto _test_eof238
 		}
 	st_case_238:
+//line msg_parse.go:8260
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8348,7 +8337,7 @@ tr341:
 			goto _test_eof242
 		}
 	st_case_242:
-//line msg_parse.go:8343
+//line msg_parse.go:8332
 		if data[p] == 10 {
 			goto st243
 		}
@@ -8381,7 +8370,7 @@ tr341:
 			goto st238
 		}
 		goto st0
-tr338:
+tr340:
 //line sip.rl:205
 
 	addr.Uri, err = ParseURI(data[mark:p])
@@ -8393,73 +8382,69 @@ tr338:
 			goto _test_eof245
 		}
 	st_case_245:
-//line msg_parse.go:8388
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto tr356
-		case 32:
+//line msg_parse.go:8377
+		if data[p] == 10 {
 			goto tr356
+		}
+		goto st0
+	st246:
+		if p++; p == pe {
+			goto _test_eof246
+		}
+	st_case_246:
+		switch data[p] {
 		case 33:
 			goto tr357
-		case 44:
-			goto tr338
-		case 59:
+		case 34:
 			goto tr358
+		case 37:
+			goto tr357
+		case 39:
+			goto tr357
 		case 60:
-			goto tr346
-		case 62:
-			goto tr346
-		case 92:
-			goto tr346
-		case 94:
-			goto tr346
-		case 96:
-			goto tr346
+			goto tr358
 		case 126:
 			goto tr357
-		case 269:
-			goto tr359
-		case 525:
-			goto tr360
 		}
 		switch {
-		case _widec < 14:
-			if _widec <= 12 {
-				goto tr346
+		case data[p] < 48:
+			switch {
+			case data[p] > 43:
+				if 45 <= data[p] && data[p] <= 46 {
+					goto tr357
+				}
+			case data[p] >= 42:
+				goto tr357
 			}
-		case _widec > 35:
+		case data[p] > 57:
 			switch {
-			case _widec > 122:
-				if 123 <= _widec {
-					goto tr346
+			case data[p] < 95:
+				if 65 <= data[p] && data[p] <= 90 {
+					goto tr359
+				}
+			case data[p] > 96:
+				if 97 <= data[p] && data[p] <= 122 {
+					goto tr359
 				}
-			case _widec >= 36:
+			default:
 				goto tr357
 			}
 		default:
-			goto tr346
+			goto tr357
 		}
 		goto st0
-tr356:
-//line sip.rl:205
+tr357:
+//line sip.rl:80
 
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
+	mark = p
 
-	goto st246
-	st246:
+	goto st247
+	st247:
 		if p++; p == pe {
-			goto _test_eof246
+			goto _test_eof247
 		}
-	st_case_246:
-//line msg_parse.go:8454
+	st_case_247:
+//line msg_parse.go:8439
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8469,48 +8454,48 @@ tr356:
 		}
 		switch _widec {
 		case 9:
-			goto st246
+			goto st248
 		case 32:
-			goto st246
-		case 44:
-			goto st234
-		case 59:
-			goto tr362
-		case 269:
-			goto tr346
-		case 525:
+			goto st248
+		case 33:
+			goto st247
+		case 37:
+			goto st247
+		case 39:
+			goto st247
+		case 126:
 			goto st247
+		case 525:
+			goto st249
 		}
 		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr346
+		case _widec < 48:
+			switch {
+			case _widec > 43:
+				if 45 <= _widec && _widec <= 46 {
+					goto st247
+				}
+			case _widec >= 42:
+				goto st247
+			}
+		case _widec > 57:
+			switch {
+			case _widec > 90:
+				if 95 <= _widec && _widec <= 122 {
+					goto st247
+				}
+			case _widec >= 65:
+				goto st247
 			}
 		default:
-			goto tr346
+			goto st247
 		}
 		goto st0
-tr362:
-//line sip.rl:214
-
-	*addrp = addr
-	addrp = &addr.Next
-	addr = nil
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:252
- {goto st256 } 
-	goto st765
-	st765:
+	st248:
 		if p++; p == pe {
-			goto _test_eof765
+			goto _test_eof248
 		}
-	st_case_765:
-//line msg_parse.go:8505
+	st_case_248:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8520,708 +8505,46 @@ tr362:
 		}
 		switch _widec {
 		case 9:
-			goto st238
+			goto st248
 		case 32:
-			goto st238
-		case 269:
-			goto tr350
+			goto st248
+		case 33:
+			goto st247
+		case 37:
+			goto st247
+		case 39:
+			goto st247
+		case 60:
+			goto tr363
+		case 126:
+			goto st247
 		case 525:
-			goto st239
+			goto st249
 		}
 		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr350
+		case _widec < 48:
+			switch {
+			case _widec > 43:
+				if 45 <= _widec && _widec <= 46 {
+					goto st247
+				}
+			case _widec >= 42:
+				goto st247
+			}
+		case _widec > 57:
+			switch {
+			case _widec > 90:
+				if 95 <= _widec && _widec <= 122 {
+					goto st247
+				}
+			case _widec >= 65:
+				goto st247
 			}
 		default:
-			goto tr350
-		}
-		goto st0
-tr360:
-//line sip.rl:205
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-	goto st247
-	st247:
-		if p++; p == pe {
-			goto _test_eof247
-		}
-	st_case_247:
-//line msg_parse.go:8544
-		if data[p] == 10 {
-			goto st248
-		}
-		goto st0
-	st248:
-		if p++; p == pe {
-			goto _test_eof248
-		}
-	st_case_248:
-		switch data[p] {
-		case 9:
-			goto st249
-		case 32:
-			goto st249
-		}
-		goto st0
-	st249:
-		if p++; p == pe {
-			goto _test_eof249
-		}
-	st_case_249:
-		switch data[p] {
-		case 9:
-			goto st249
-		case 32:
-			goto st249
-		case 44:
-			goto st234
-		case 59:
-			goto tr362
-		}
-		goto tr346
-tr357:
-//line sip.rl:214
-
-	*addrp = addr
-	addrp = &addr.Next
-	addr = nil
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:252
- {goto st256 } 
-	goto st766
-tr367:
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:254
- {goto st153 } 
-	goto st766
-	st766:
-		if p++; p == pe {
-			goto _test_eof766
-		}
-	st_case_766:
-//line msg_parse.go:8606
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto tr337
-		case 32:
-			goto tr337
-		case 33:
-			goto st232
-		case 44:
-			goto tr338
-		case 59:
-			goto tr339
-		case 61:
-			goto st232
-		case 93:
-			goto st232
-		case 95:
-			goto st232
-		case 126:
-			goto st232
-		case 269:
-			goto tr340
-		case 525:
-			goto tr341
-		}
-		switch {
-		case _widec < 63:
-			if 36 <= _widec && _widec <= 58 {
-				goto st232
-			}
-		case _widec > 91:
-			if 97 <= _widec && _widec <= 122 {
-				goto st232
-			}
-		default:
-			goto st232
-		}
-		goto st0
-tr339:
-//line sip.rl:205
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-	goto st250
-	st250:
-		if p++; p == pe {
-			goto _test_eof250
-		}
-	st_case_250:
-//line msg_parse.go:8663
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto tr366
-		case 32:
-			goto tr366
-		case 33:
-			goto tr367
-		case 44:
-			goto tr368
-		case 59:
-			goto tr339
-		case 60:
-			goto tr350
-		case 62:
-			goto tr350
-		case 92:
-			goto tr350
-		case 94:
-			goto tr350
-		case 96:
-			goto tr350
-		case 126:
-			goto tr367
-		case 269:
-			goto tr369
-		case 525:
-			goto tr370
-		}
-		switch {
-		case _widec < 14:
-			if _widec <= 12 {
-				goto tr350
-			}
-		case _widec > 35:
-			switch {
-			case _widec > 122:
-				if 123 <= _widec {
-					goto tr350
-				}
-			case _widec >= 36:
-				goto tr367
-			}
-		default:
-			goto tr350
-		}
-		goto st0
-tr366:
-//line sip.rl:205
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-	goto st251
-	st251:
-		if p++; p == pe {
-			goto _test_eof251
-		}
-	st_case_251:
-//line msg_parse.go:8729
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st251
-		case 32:
-			goto st251
-		case 44:
-			goto tr372
-		case 59:
-			goto st238
-		case 269:
-			goto tr350
-		case 525:
-			goto st252
-		}
-		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr350
-			}
-		default:
-			goto tr350
-		}
-		goto st0
-tr372:
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:254
- {goto st153 } 
-	goto st767
-	st767:
-		if p++; p == pe {
-			goto _test_eof767
-		}
-	st_case_767:
-//line msg_parse.go:8774
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st234
-		case 32:
-			goto st234
-		case 269:
-			goto tr346
-		case 525:
-			goto st235
-		}
-		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr346
-			}
-		default:
-			goto tr346
-		}
-		goto st0
-tr370:
-//line sip.rl:205
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-	goto st252
-	st252:
-		if p++; p == pe {
-			goto _test_eof252
-		}
-	st_case_252:
-//line msg_parse.go:8813
-		if data[p] == 10 {
-			goto st253
-		}
-		goto st0
-	st253:
-		if p++; p == pe {
-			goto _test_eof253
-		}
-	st_case_253:
-		switch data[p] {
-		case 9:
-			goto st254
-		case 32:
-			goto st254
-		}
-		goto st0
-	st254:
-		if p++; p == pe {
-			goto _test_eof254
-		}
-	st_case_254:
-		switch data[p] {
-		case 9:
-			goto st254
-		case 32:
-			goto st254
-		case 44:
-			goto tr372
-		case 59:
-			goto st238
-		}
-		goto tr350
-tr368:
-//line sip.rl:205
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:254
- {goto st153 } 
-	goto st768
-	st768:
-		if p++; p == pe {
-			goto _test_eof768
-		}
-	st_case_768:
-//line msg_parse.go:8865
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto tr356
-		case 32:
-			goto tr356
-		case 33:
-			goto tr357
-		case 44:
-			goto tr338
-		case 59:
-			goto tr358
-		case 60:
-			goto tr346
-		case 62:
-			goto tr346
-		case 92:
-			goto tr346
-		case 94:
-			goto tr346
-		case 96:
-			goto tr346
-		case 126:
-			goto tr357
-		case 269:
-			goto tr359
-		case 525:
-			goto tr360
-		}
-		switch {
-		case _widec < 14:
-			if _widec <= 12 {
-				goto tr346
-			}
-		case _widec > 35:
-			switch {
-			case _widec > 122:
-				if 123 <= _widec {
-					goto tr346
-				}
-			case _widec >= 36:
-				goto tr357
-			}
-		default:
-			goto tr346
+			goto st247
 		}
 		goto st0
 tr358:
-//line sip.rl:205
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-//line sip.rl:214
-
-	*addrp = addr
-	addrp = &addr.Next
-	addr = nil
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:252
- {goto st256 } 
-	goto st769
-	st769:
-		if p++; p == pe {
-			goto _test_eof769
-		}
-	st_case_769:
-//line msg_parse.go:8944
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto tr366
-		case 32:
-			goto tr366
-		case 33:
-			goto tr367
-		case 44:
-			goto tr368
-		case 59:
-			goto tr339
-		case 60:
-			goto tr350
-		case 62:
-			goto tr350
-		case 92:
-			goto tr350
-		case 94:
-			goto tr350
-		case 96:
-			goto tr350
-		case 126:
-			goto tr367
-		case 269:
-			goto tr369
-		case 525:
-			goto tr370
-		}
-		switch {
-		case _widec < 14:
-			if _widec <= 12 {
-				goto tr350
-			}
-		case _widec > 35:
-			switch {
-			case _widec > 122:
-				if 123 <= _widec {
-					goto tr350
-				}
-			case _widec >= 36:
-				goto tr367
-			}
-		default:
-			goto tr350
-		}
-		goto st0
-tr359:
-//line sip.rl:205
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-//line sip.rl:214
-
-	*addrp = addr
-	addrp = &addr.Next
-	addr = nil
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:252
- {goto st256 } 
-	goto st770
-tr369:
-//line sip.rl:205
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:254
- {goto st153 } 
-	goto st770
-	st770:
-		if p++; p == pe {
-			goto _test_eof770
-		}
-	st_case_770:
-//line msg_parse.go:9037
-		if data[p] == 10 {
-			goto tr376
-		}
-		goto st0
-tr340:
-//line sip.rl:205
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-	goto st255
-	st255:
-		if p++; p == pe {
-			goto _test_eof255
-		}
-	st_case_255:
-//line msg_parse.go:9054
-		if data[p] == 10 {
-			goto tr376
-		}
-		goto st0
-	st256:
-		if p++; p == pe {
-			goto _test_eof256
-		}
-	st_case_256:
-		switch data[p] {
-		case 33:
-			goto tr377
-		case 34:
-			goto tr378
-		case 37:
-			goto tr377
-		case 39:
-			goto tr377
-		case 60:
-			goto tr378
-		case 126:
-			goto tr377
-		}
-		switch {
-		case data[p] < 48:
-			switch {
-			case data[p] > 43:
-				if 45 <= data[p] && data[p] <= 46 {
-					goto tr377
-				}
-			case data[p] >= 42:
-				goto tr377
-			}
-		case data[p] > 57:
-			switch {
-			case data[p] < 95:
-				if 65 <= data[p] && data[p] <= 90 {
-					goto tr379
-				}
-			case data[p] > 96:
-				if 97 <= data[p] && data[p] <= 122 {
-					goto tr379
-				}
-			default:
-				goto tr377
-			}
-		default:
-			goto tr377
-		}
-		goto st0
-tr377:
-//line sip.rl:80
-
-	mark = p
-
-	goto st257
-	st257:
-		if p++; p == pe {
-			goto _test_eof257
-		}
-	st_case_257:
-//line msg_parse.go:9116
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st258
-		case 32:
-			goto st258
-		case 33:
-			goto st257
-		case 37:
-			goto st257
-		case 39:
-			goto st257
-		case 126:
-			goto st257
-		case 525:
-			goto st259
-		}
-		switch {
-		case _widec < 48:
-			switch {
-			case _widec > 43:
-				if 45 <= _widec && _widec <= 46 {
-					goto st257
-				}
-			case _widec >= 42:
-				goto st257
-			}
-		case _widec > 57:
-			switch {
-			case _widec > 90:
-				if 95 <= _widec && _widec <= 122 {
-					goto st257
-				}
-			case _widec >= 65:
-				goto st257
-			}
-		default:
-			goto st257
-		}
-		goto st0
-	st258:
-		if p++; p == pe {
-			goto _test_eof258
-		}
-	st_case_258:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st258
-		case 32:
-			goto st258
-		case 33:
-			goto st257
-		case 37:
-			goto st257
-		case 39:
-			goto st257
-		case 60:
-			goto tr383
-		case 126:
-			goto st257
-		case 525:
-			goto st259
-		}
-		switch {
-		case _widec < 48:
-			switch {
-			case _widec > 43:
-				if 45 <= _widec && _widec <= 46 {
-					goto st257
-				}
-			case _widec >= 42:
-				goto st257
-			}
-		case _widec > 57:
-			switch {
-			case _widec > 90:
-				if 95 <= _widec && _widec <= 122 {
-					goto st257
-				}
-			case _widec >= 65:
-				goto st257
-			}
-		default:
-			goto st257
-		}
-		goto st0
-tr378:
 //line sip.rl:189
 
 	addr = new(Addr)
@@ -9233,8 +8556,8 @@ tr378:
 
 //line sip.rl:253
  {goto st188 } 
-	goto st771
-tr383:
+	goto st755
+tr363:
 //line sip.rl:189
 
 	addr = new(Addr)
@@ -9246,8 +8569,8 @@ tr383:
 
 //line sip.rl:253
  {goto st188 } 
-	goto st771
-tr387:
+	goto st755
+tr367:
 //line sip.rl:189
 
 	addr = new(Addr)
@@ -9259,91 +8582,91 @@ tr387:
 
 //line sip.rl:255
  {goto st229 } 
-	goto st771
-	st771:
+	goto st755
+	st755:
 		if p++; p == pe {
-			goto _test_eof771
+			goto _test_eof755
 		}
-	st_case_771:
-//line msg_parse.go:9260
+	st_case_755:
+//line msg_parse.go:8583
 		goto st0
-	st259:
+	st249:
 		if p++; p == pe {
-			goto _test_eof259
+			goto _test_eof249
 		}
-	st_case_259:
+	st_case_249:
 		if data[p] == 10 {
-			goto st260
+			goto st250
 		}
 		goto st0
-	st260:
+	st250:
 		if p++; p == pe {
-			goto _test_eof260
+			goto _test_eof250
 		}
-	st_case_260:
+	st_case_250:
 		switch data[p] {
 		case 9:
-			goto st261
+			goto st251
 		case 32:
-			goto st261
+			goto st251
 		}
 		goto st0
-	st261:
+	st251:
 		if p++; p == pe {
-			goto _test_eof261
+			goto _test_eof251
 		}
-	st_case_261:
+	st_case_251:
 		switch data[p] {
 		case 9:
-			goto st261
+			goto st251
 		case 32:
-			goto st261
+			goto st251
 		case 33:
-			goto st257
+			goto st247
 		case 37:
-			goto st257
+			goto st247
 		case 39:
-			goto st257
+			goto st247
 		case 60:
-			goto tr383
+			goto tr363
 		case 126:
-			goto st257
+			goto st247
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto st257
+					goto st247
 				}
 			case data[p] >= 42:
-				goto st257
+				goto st247
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto st257
+					goto st247
 				}
 			case data[p] >= 65:
-				goto st257
+				goto st247
 			}
 		default:
-			goto st257
+			goto st247
 		}
 		goto st0
-tr379:
+tr359:
 //line sip.rl:80
 
 	mark = p
 
-	goto st262
-	st262:
+	goto st252
+	st252:
 		if p++; p == pe {
-			goto _test_eof262
+			goto _test_eof252
 		}
-	st_case_262:
-//line msg_parse.go:9338
+	st_case_252:
+//line msg_parse.go:8661
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9353,54 +8676,54 @@ tr379:
 		}
 		switch _widec {
 		case 9:
-			goto st258
+			goto st248
 		case 32:
-			goto st258
+			goto st248
 		case 33:
-			goto st257
+			goto st247
 		case 37:
-			goto st257
+			goto st247
 		case 39:
-			goto st257
+			goto st247
 		case 42:
-			goto st257
+			goto st247
 		case 43:
-			goto st262
+			goto st252
 		case 58:
-			goto tr387
+			goto tr367
 		case 126:
-			goto st257
+			goto st247
 		case 525:
-			goto st259
+			goto st249
 		}
 		switch {
 		case _widec < 65:
 			switch {
 			case _widec > 46:
 				if 48 <= _widec && _widec <= 57 {
-					goto st262
+					goto st252
 				}
 			case _widec >= 45:
-				goto st262
+				goto st252
 			}
 		case _widec > 90:
 			switch {
 			case _widec > 96:
 				if 97 <= _widec && _widec <= 122 {
-					goto st262
+					goto st252
 				}
 			case _widec >= 95:
-				goto st257
+				goto st247
 			}
 		default:
-			goto st262
+			goto st252
 		}
 		goto st0
-	st263:
+	st253:
 		if p++; p == pe {
-			goto _test_eof263
+			goto _test_eof253
 		}
-	st_case_263:
+	st_case_253:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9410,51 +8733,51 @@ tr379:
 		}
 		switch _widec {
 		case 9:
-			goto tr388
+			goto tr368
 		case 269:
-			goto tr394
+			goto tr374
 		case 525:
-			goto tr395
+			goto tr375
 		}
 		switch {
 		case _widec < 224:
 			switch {
 			case _widec > 127:
 				if 192 <= _widec && _widec <= 223 {
-					goto tr389
+					goto tr369
 				}
 			case _widec >= 32:
-				goto tr388
+				goto tr368
 			}
 		case _widec > 239:
 			switch {
 			case _widec < 248:
 				if 240 <= _widec && _widec <= 247 {
-					goto tr391
+					goto tr371
 				}
 			case _widec > 251:
 				if 252 <= _widec && _widec <= 253 {
-					goto tr393
+					goto tr373
 				}
 			default:
-				goto tr392
+				goto tr372
 			}
 		default:
-			goto tr390
+			goto tr370
 		}
 		goto st0
-tr388:
+tr368:
 //line sip.rl:80
 
 	mark = p
 
-	goto st264
-	st264:
+	goto st254
+	st254:
 		if p++; p == pe {
-			goto _test_eof264
+			goto _test_eof254
 		}
-	st_case_264:
-//line msg_parse.go:9449
+	st_case_254:
+//line msg_parse.go:8772
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9464,136 +8787,136 @@ tr388:
 		}
 		switch _widec {
 		case 9:
-			goto st264
+			goto st254
 		case 269:
-			goto st270
+			goto st260
 		case 525:
-			goto st271
+			goto st261
 		}
 		switch {
 		case _widec < 224:
 			switch {
 			case _widec > 127:
 				if 192 <= _widec && _widec <= 223 {
-					goto st265
+					goto st255
 				}
 			case _widec >= 32:
-				goto st264
+				goto st254
 			}
 		case _widec > 239:
 			switch {
 			case _widec < 248:
 				if 240 <= _widec && _widec <= 247 {
-					goto st267
+					goto st257
 				}
 			case _widec > 251:
 				if 252 <= _widec && _widec <= 253 {
-					goto st269
+					goto st259
 				}
 			default:
-				goto st268
+				goto st258
 			}
 		default:
-			goto st266
+			goto st256
 		}
 		goto st0
-tr389:
+tr369:
 //line sip.rl:80
 
 	mark = p
 
-	goto st265
-	st265:
+	goto st255
+	st255:
 		if p++; p == pe {
-			goto _test_eof265
+			goto _test_eof255
 		}
-	st_case_265:
-//line msg_parse.go:9503
+	st_case_255:
+//line msg_parse.go:8826
 		if 128 <= data[p] && data[p] <= 191 {
-			goto st264
+			goto st254
 		}
 		goto st0
-tr390:
+tr370:
 //line sip.rl:80
 
 	mark = p
 
-	goto st266
-	st266:
+	goto st256
+	st256:
 		if p++; p == pe {
-			goto _test_eof266
+			goto _test_eof256
 		}
-	st_case_266:
-//line msg_parse.go:9519
+	st_case_256:
+//line msg_parse.go:8842
 		if 128 <= data[p] && data[p] <= 191 {
-			goto st265
+			goto st255
 		}
 		goto st0
-tr391:
+tr371:
 //line sip.rl:80
 
 	mark = p
 
-	goto st267
-	st267:
+	goto st257
+	st257:
 		if p++; p == pe {
-			goto _test_eof267
+			goto _test_eof257
 		}
-	st_case_267:
-//line msg_parse.go:9535
+	st_case_257:
+//line msg_parse.go:8858
 		if 128 <= data[p] && data[p] <= 191 {
-			goto st266
+			goto st256
 		}
 		goto st0
-tr392:
+tr372:
 //line sip.rl:80
 
 	mark = p
 
-	goto st268
-	st268:
+	goto st258
+	st258:
 		if p++; p == pe {
-			goto _test_eof268
+			goto _test_eof258
 		}
-	st_case_268:
-//line msg_parse.go:9551
+	st_case_258:
+//line msg_parse.go:8874
 		if 128 <= data[p] && data[p] <= 191 {
-			goto st267
+			goto st257
 		}
 		goto st0
-tr393:
+tr373:
 //line sip.rl:80
 
 	mark = p
 
-	goto st269
-	st269:
+	goto st259
+	st259:
 		if p++; p == pe {
-			goto _test_eof269
+			goto _test_eof259
 		}
-	st_case_269:
-//line msg_parse.go:9567
+	st_case_259:
+//line msg_parse.go:8890
 		if 128 <= data[p] && data[p] <= 191 {
-			goto st268
+			goto st258
 		}
 		goto st0
-tr394:
+tr374:
 //line sip.rl:80
 
 	mark = p
 
-	goto st270
-	st270:
+	goto st260
+	st260:
 		if p++; p == pe {
-			goto _test_eof270
+			goto _test_eof260
 		}
-	st_case_270:
-//line msg_parse.go:9583
+	st_case_260:
+//line msg_parse.go:8906
 		if data[p] == 10 {
-			goto tr404
+			goto tr384
 		}
 		goto st0
-tr404:
+tr384:
 //line sip.rl:180
 {
 	b := data[mark:p - 1]
@@ -9604,158 +8927,158 @@ tr404:
 	}
 }
 //line sip.rl:257
- {goto st280 } 
-	goto st772
-	st772:
+ {goto st270 } 
+	goto st756
+	st756:
 		if p++; p == pe {
-			goto _test_eof772
+			goto _test_eof756
 		}
-	st_case_772:
-//line msg_parse.go:9606
+	st_case_756:
+//line msg_parse.go:8929
 		goto st0
-tr395:
+tr375:
 //line sip.rl:80
 
 	mark = p
 
-	goto st271
-	st271:
+	goto st261
+	st261:
 		if p++; p == pe {
-			goto _test_eof271
+			goto _test_eof261
 		}
-	st_case_271:
-//line msg_parse.go:9619
+	st_case_261:
+//line msg_parse.go:8942
 		if data[p] == 10 {
-			goto st272
+			goto st262
 		}
 		goto st0
-	st272:
+	st262:
 		if p++; p == pe {
-			goto _test_eof272
+			goto _test_eof262
 		}
-	st_case_272:
+	st_case_262:
 		switch data[p] {
 		case 9:
-			goto st264
+			goto st254
 		case 32:
-			goto st264
+			goto st254
 		}
 		goto st0
-	st273:
+	st263:
 		if p++; p == pe {
-			goto _test_eof273
+			goto _test_eof263
 		}
-	st_case_273:
+	st_case_263:
 		switch data[p] {
 		case 33:
-			goto st274
+			goto st264
 		case 37:
-			goto st274
+			goto st264
 		case 39:
-			goto st274
+			goto st264
 		case 126:
-			goto st274
+			goto st264
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto st274
+					goto st264
 				}
 			case data[p] >= 42:
-				goto st274
+				goto st264
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto st274
+					goto st264
 				}
 			case data[p] >= 65:
-				goto st274
+				goto st264
 			}
 		default:
-			goto st274
+			goto st264
 		}
 		goto st0
-	st274:
+	st264:
 		if p++; p == pe {
-			goto _test_eof274
+			goto _test_eof264
 		}
-	st_case_274:
+	st_case_264:
 		switch data[p] {
 		case 9:
-			goto tr407
+			goto tr387
 		case 32:
-			goto tr407
+			goto tr387
 		case 33:
-			goto st274
+			goto st264
 		case 37:
-			goto st274
+			goto st264
 		case 39:
-			goto st274
+			goto st264
 		case 58:
-			goto tr408
+			goto tr388
 		case 126:
-			goto st274
+			goto st264
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto st274
+					goto st264
 				}
 			case data[p] >= 42:
-				goto st274
+				goto st264
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto st274
+					goto st264
 				}
 			case data[p] >= 65:
-				goto st274
+				goto st264
 			}
 		default:
-			goto st274
+			goto st264
 		}
 		goto st0
-tr407:
+tr387:
 //line sip.rl:176
 
 	name = string(data[mark:p])
 
-	goto st275
-	st275:
+	goto st265
+	st265:
 		if p++; p == pe {
-			goto _test_eof275
+			goto _test_eof265
 		}
-	st_case_275:
-//line msg_parse.go:9729
+	st_case_265:
+//line msg_parse.go:9052
 		switch data[p] {
 		case 9:
-			goto st275
+			goto st265
 		case 32:
-			goto st275
+			goto st265
 		case 58:
-			goto st276
+			goto st266
 		}
 		goto st0
-tr408:
+tr388:
 //line sip.rl:176
 
 	name = string(data[mark:p])
 
-	goto st276
-	st276:
+	goto st266
+	st266:
 		if p++; p == pe {
-			goto _test_eof276
+			goto _test_eof266
 		}
-	st_case_276:
-//line msg_parse.go:9750
+	st_case_266:
+//line msg_parse.go:9073
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9765,24 +9088,24 @@ tr408:
 		}
 		switch _widec {
 		case 9:
-			goto st276
+			goto st266
 		case 32:
-			goto st276
+			goto st266
 		case 269:
-			goto tr411
+			goto tr391
 		case 525:
-			goto st277
+			goto st267
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr411
+				goto tr391
 			}
 		default:
-			goto tr411
+			goto tr391
 		}
 		goto st0
-tr411:
+tr391:
 //line sip.rl:532
 value=nil
 //line sip.rl:72
@@ -9791,117 +9114,117 @@ value=nil
 
 
 //line sip.rl:258
- {goto st263 } 
-	goto st773
-	st773:
+ {goto st253 } 
+	goto st757
+	st757:
 		if p++; p == pe {
-			goto _test_eof773
+			goto _test_eof757
 		}
-	st_case_773:
-//line msg_parse.go:9793
+	st_case_757:
+//line msg_parse.go:9116
 		goto st0
-	st277:
+	st267:
 		if p++; p == pe {
-			goto _test_eof277
+			goto _test_eof267
 		}
-	st_case_277:
+	st_case_267:
 		if data[p] == 10 {
-			goto st278
+			goto st268
 		}
 		goto st0
-	st278:
+	st268:
 		if p++; p == pe {
-			goto _test_eof278
+			goto _test_eof268
 		}
-	st_case_278:
+	st_case_268:
 		switch data[p] {
 		case 9:
-			goto st279
+			goto st269
 		case 32:
-			goto st279
+			goto st269
 		}
 		goto st0
-	st279:
+	st269:
 		if p++; p == pe {
-			goto _test_eof279
+			goto _test_eof269
 		}
-	st_case_279:
+	st_case_269:
 		switch data[p] {
 		case 9:
-			goto st279
+			goto st269
 		case 32:
-			goto st279
+			goto st269
 		}
-		goto tr411
-	st280:
+		goto tr391
+	st270:
 		if p++; p == pe {
-			goto _test_eof280
+			goto _test_eof270
 		}
-	st_case_280:
+	st_case_270:
 		switch data[p] {
 		case 13:
-			goto st281
+			goto st271
 		case 33:
-			goto tr416
+			goto tr396
 		case 37:
-			goto tr416
+			goto tr396
 		case 39:
-			goto tr416
+			goto tr396
 		case 126:
-			goto tr416
+			goto tr396
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr416
+					goto tr396
 				}
 			case data[p] >= 42:
-				goto tr416
+				goto tr396
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr416
+					goto tr396
 				}
 			case data[p] >= 65:
-				goto tr416
+				goto tr396
 			}
 		default:
-			goto tr416
+			goto tr396
 		}
 		goto st0
-	st281:
+	st271:
 		if p++; p == pe {
-			goto _test_eof281
+			goto _test_eof271
 		}
-	st_case_281:
+	st_case_271:
 		if data[p] == 10 {
-			goto tr417
+			goto tr397
 		}
 		goto st0
-tr561:
+tr541:
 //line sip.rl:257
- {goto st280 } 
-	goto st774
-tr417:
+ {goto st270 } 
+	goto st758
+tr397:
 //line sip.rl:76
 
-	{p++; cs = 774; goto _out }
+	{p++; cs = 758; goto _out }
 
-	goto st774
-tr444:
+	goto st758
+tr424:
 //line sip.rl:72
 
 	p--
 
 
 //line sip.rl:258
- {goto st263 } 
-	goto st774
-tr543:
+ {goto st253 } 
+	goto st758
+tr523:
 //line sip.rl:72
 
 	p--
@@ -9909,8 +9232,8 @@ tr543:
 
 //line sip.rl:256
  {goto st34 } 
-	goto st774
-tr578:
+	goto st758
+tr558:
 //line sip.rl:534
 value=nil
 //line sip.rl:72
@@ -9919,9 +9242,9 @@ value=nil
 
 
 //line sip.rl:252
- {goto st256 } 
-	goto st774
-tr965:
+ {goto st246 } 
+	goto st758
+tr945:
 //line sip.rl:137
 
 	via = new(Via)
@@ -9933,15 +9256,15 @@ tr965:
 
 //line sip.rl:259
  {goto st103 } 
-	goto st774
-	st774:
+	goto st758
+	st758:
 		if p++; p == pe {
-			goto _test_eof774
+			goto _test_eof758
 		}
-	st_case_774:
-//line msg_parse.go:9934
+	st_case_758:
+//line msg_parse.go:9257
 		goto st0
-tr416:
+tr396:
 //line sip.rl:80
 
 	mark = p
@@ -9951,494 +9274,626 @@ tr416:
 	p--
 
 
-	goto st282
-	st282:
+	goto st272
+	st272:
 		if p++; p == pe {
-			goto _test_eof282
+			goto _test_eof272
 		}
-	st_case_282:
-//line msg_parse.go:9952
+	st_case_272:
+//line msg_parse.go:9275
 		switch data[p] {
 		case 65:
-			goto st283
+			goto st273
 		case 66:
-			goto st364
+			goto st354
 		case 67:
-			goto st365
+			goto st355
 		case 68:
-			goto st460
+			goto st450
 		case 69:
-			goto st464
+			goto st454
 		case 70:
-			goto st490
+			goto st480
 		case 73:
-			goto st494
+			goto st484
 		case 75:
-			goto st505
+			goto st495
 		case 76:
-			goto st435
+			goto st425
 		case 77:
-			goto st506
+			goto st496
 		case 79:
-			goto st550
+			goto st540
 		case 80:
-			goto st562
+			goto st552
 		case 82:
-			goto st620
+			goto st610
 		case 83:
-			goto st680
+			goto st670
 		case 84:
-			goto st698
+			goto st688
 		case 85:
-			goto st708
+			goto st698
 		case 86:
-			goto st728
+			goto st718
 		case 87:
-			goto st736
+			goto st726
 		case 97:
-			goto st283
+			goto st273
 		case 98:
-			goto st364
+			goto st354
 		case 99:
-			goto st365
+			goto st355
 		case 100:
-			goto st460
+			goto st450
 		case 101:
-			goto st464
+			goto st454
 		case 102:
-			goto st490
+			goto st480
 		case 105:
-			goto st494
+			goto st484
 		case 107:
-			goto st505
+			goto st495
 		case 108:
-			goto st435
+			goto st425
 		case 109:
-			goto st506
+			goto st496
 		case 111:
-			goto st550
+			goto st540
 		case 112:
-			goto st562
+			goto st552
 		case 114:
-			goto st620
+			goto st610
 		case 115:
-			goto st680
+			goto st670
 		case 116:
-			goto st698
+			goto st688
 		case 117:
-			goto st708
+			goto st698
 		case 118:
-			goto st728
+			goto st718
 		case 119:
-			goto st736
+			goto st726
 		}
-		goto tr418
-	st283:
+		goto tr398
+	st273:
 		if p++; p == pe {
-			goto _test_eof283
+			goto _test_eof273
 		}
-	st_case_283:
+	st_case_273:
 		switch data[p] {
 		case 9:
-			goto tr437
+			goto tr417
 		case 32:
-			goto tr437
+			goto tr417
 		case 58:
-			goto tr438
+			goto tr418
 		case 67:
-			goto st289
+			goto st279
 		case 76:
-			goto st318
+			goto st308
 		case 85:
-			goto st337
+			goto st327
 		case 99:
-			goto st289
+			goto st279
 		case 108:
-			goto st318
+			goto st308
 		case 117:
-			goto st337
+			goto st327
 		}
-		goto tr418
-tr437:
+		goto tr398
+tr417:
 //line sip.rl:451
 value=&msg.AcceptContact
-	goto st284
-tr452:
+	goto st274
+tr432:
 //line sip.rl:450
 value=&msg.Accept
-	goto st284
-tr471:
+	goto st274
+tr451:
 //line sip.rl:452
 value=&msg.AcceptEncoding
-	goto st284
-tr480:
+	goto st274
+tr460:
 //line sip.rl:453
 value=&msg.AcceptLanguage
-	goto st284
-tr491:
+	goto st274
+tr471:
 //line sip.rl:456
 value=&msg.AlertInfo
-	goto st284
-tr495:
+	goto st274
+tr475:
 //line sip.rl:454
 value=&msg.Allow
-	goto st284
-tr504:
+	goto st274
+tr484:
 //line sip.rl:455
 value=&msg.AllowEvents
-	goto st284
-tr524:
+	goto st274
+tr504:
 //line sip.rl:457
 value=&msg.AuthenticationInfo
-	goto st284
-tr534:
+	goto st274
+tr514:
 //line sip.rl:458
 value=&msg.Authorization
-	goto st284
-tr536:
+	goto st274
+tr516:
 //line sip.rl:475
 value=&msg.ReferredBy
-	goto st284
-tr566:
+	goto st274
+tr546:
 //line sip.rl:462
 value=&msg.CallInfo
-	goto st284
-tr599:
+	goto st274
+tr579:
 //line sip.rl:459
 value=&msg.ContentDisposition
-	goto st284
-tr608:
+	goto st274
+tr588:
 //line sip.rl:461
 value=&msg.ContentEncoding
-	goto st284
-tr618:
+	goto st274
+tr598:
 //line sip.rl:460
 value=&msg.ContentLanguage
-	goto st284
-tr652:
+	goto st274
+tr632:
 //line sip.rl:463
 value=&msg.Date
-	goto st284
-tr665:
+	goto st274
+tr645:
 //line sip.rl:464
 value=&msg.ErrorInfo
-	goto st284
-tr670:
+	goto st274
+tr650:
 //line sip.rl:465
 value=&msg.Event
-	goto st284
-tr699:
+	goto st274
+tr679:
 //line sip.rl:466
 value=&msg.InReplyTo
-	goto st284
-tr701:
+	goto st274
+tr681:
 //line sip.rl:480
 value=&msg.Supported
-	goto st284
-tr733:
+	goto st274
+tr713:
 //line sip.rl:468
 value=&msg.MIMEVersion
-	goto st284
-tr761:
+	goto st274
+tr741:
 //line sip.rl:469
 value=&msg.Organization
-	goto st284
-tr791:
+	goto st274
+tr771:
 //line sip.rl:470
 value=&msg.Priority
-	goto st284
-tr810:
+	goto st274
+tr790:
 //line sip.rl:471
 value=&msg.ProxyAuthenticate
-	goto st284
-tr820:
+	goto st274
+tr800:
 //line sip.rl:472
 value=&msg.ProxyAuthorization
-	goto st284
-tr828:
+	goto st274
+tr808:
 //line sip.rl:473
 value=&msg.ProxyRequire
-	goto st284
-tr830:
+	goto st274
+tr810:
 //line sip.rl:474
 value=&msg.ReferTo
-	goto st284
-tr880:
+	goto st274
+tr860:
 //line sip.rl:467
 value=&msg.ReplyTo
-	goto st284
-tr886:
+	goto st274
+tr866:
 //line sip.rl:476
 value=&msg.Require
-	goto st284
-tr896:
+	goto st274
+tr876:
 //line sip.rl:477
 value=&msg.RetryAfter
-	goto st284
-tr903:
+	goto st274
+tr883:
 //line sip.rl:479
 value=&msg.Subject
-	goto st284
-tr911:
+	goto st274
+tr891:
 //line sip.rl:478
 value=&msg.Server
-	goto st284
-tr935:
+	goto st274
+tr915:
 //line sip.rl:481
 value=&msg.Timestamp
-	goto st284
-tr937:
+	goto st274
+tr917:
 //line sip.rl:454
 value=&msg.Allow
 //line sip.rl:455
 value=&msg.AllowEvents
-	goto st284
-tr950:
+	goto st274
+tr930:
 //line sip.rl:482
 value=&msg.Unsupported
-	goto st284
-tr960:
+	goto st274
+tr940:
 //line sip.rl:483
 value=&msg.UserAgent
-	goto st284
-tr977:
+	goto st274
+tr957:
 //line sip.rl:484
 value=&msg.Warning
-	goto st284
-tr993:
+	goto st274
+tr973:
 //line sip.rl:485
 value=&msg.WWWAuthenticate
-	goto st284
-	st284:
+	goto st274
+	st274:
 		if p++; p == pe {
-			goto _test_eof284
+			goto _test_eof274
 		}
-	st_case_284:
-//line msg_parse.go:10209
+	st_case_274:
+//line msg_parse.go:9532
 		switch data[p] {
 		case 9:
-			goto st284
+			goto st274
 		case 32:
-			goto st284
+			goto st274
 		case 58:
-			goto st285
+			goto st275
 		}
 		goto st0
-tr438:
+tr418:
 //line sip.rl:451
 value=&msg.AcceptContact
-	goto st285
-tr454:
+	goto st275
+tr434:
 //line sip.rl:450
 value=&msg.Accept
-	goto st285
-tr472:
+	goto st275
+tr452:
 //line sip.rl:452
 value=&msg.AcceptEncoding
-	goto st285
-tr481:
+	goto st275
+tr461:
 //line sip.rl:453
 value=&msg.AcceptLanguage
-	goto st285
-tr492:
+	goto st275
+tr472:
 //line sip.rl:456
 value=&msg.AlertInfo
-	goto st285
-tr497:
+	goto st275
+tr477:
 //line sip.rl:454
 value=&msg.Allow
-	goto st285
-tr505:
+	goto st275
+tr485:
 //line sip.rl:455
 value=&msg.AllowEvents
-	goto st285
-tr525:
+	goto st275
+tr505:
 //line sip.rl:457
 value=&msg.AuthenticationInfo
-	goto st285
-tr535:
+	goto st275
+tr515:
 //line sip.rl:458
 value=&msg.Authorization
-	goto st285
-tr537:
+	goto st275
+tr517:
 //line sip.rl:475
 value=&msg.ReferredBy
-	goto st285
-tr567:
+	goto st275
+tr547:
 //line sip.rl:462
 value=&msg.CallInfo
-	goto st285
-tr600:
+	goto st275
+tr580:
 //line sip.rl:459
 value=&msg.ContentDisposition
-	goto st285
-tr609:
+	goto st275
+tr589:
 //line sip.rl:461
 value=&msg.ContentEncoding
-	goto st285
-tr619:
+	goto st275
+tr599:
 //line sip.rl:460
 value=&msg.ContentLanguage
-	goto st285
-tr653:
+	goto st275
+tr633:
 //line sip.rl:463
 value=&msg.Date
-	goto st285
-tr666:
+	goto st275
+tr646:
 //line sip.rl:464
 value=&msg.ErrorInfo
-	goto st285
-tr671:
+	goto st275
+tr651:
 //line sip.rl:465
 value=&msg.Event
-	goto st285
-tr700:
+	goto st275
+tr680:
 //line sip.rl:466
 value=&msg.InReplyTo
-	goto st285
-tr702:
+	goto st275
+tr682:
 //line sip.rl:480
 value=&msg.Supported
-	goto st285
-tr734:
+	goto st275
+tr714:
 //line sip.rl:468
 value=&msg.MIMEVersion
-	goto st285
-tr762:
+	goto st275
+tr742:
 //line sip.rl:469
 value=&msg.Organization
-	goto st285
-tr792:
+	goto st275
+tr772:
 //line sip.rl:470
 value=&msg.Priority
-	goto st285
-tr811:
+	goto st275
+tr791:
 //line sip.rl:471
 value=&msg.ProxyAuthenticate
-	goto st285
-tr821:
+	goto st275
+tr801:
 //line sip.rl:472
 value=&msg.ProxyAuthorization
-	goto st285
-tr829:
+	goto st275
+tr809:
 //line sip.rl:473
 value=&msg.ProxyRequire
-	goto st285
-tr831:
+	goto st275
+tr811:
 //line sip.rl:474
 value=&msg.ReferTo
-	goto st285
-tr881:
+	goto st275
+tr861:
 //line sip.rl:467
 value=&msg.ReplyTo
-	goto st285
-tr887:
+	goto st275
+tr867:
 //line sip.rl:476
 value=&msg.Require
-	goto st285
-tr897:
+	goto st275
+tr877:
 //line sip.rl:477
 value=&msg.RetryAfter
-	goto st285
-tr904:
+	goto st275
+tr884:
 //line sip.rl:479
 value=&msg.Subject
-	goto st285
-tr912:
+	goto st275
+tr892:
 //line sip.rl:478
 value=&msg.Server
-	goto st285
-tr936:
+	goto st275
+tr916:
 //line sip.rl:481
 value=&msg.Timestamp
-	goto st285
-tr938:
+	goto st275
+tr918:
 //line sip.rl:454
 value=&msg.Allow
 //line sip.rl:455
 value=&msg.AllowEvents
-	goto st285
-tr951:
+	goto st275
+tr931:
 //line sip.rl:482
 value=&msg.Unsupported
-	goto st285
-tr961:
+	goto st275
+tr941:
 //line sip.rl:483
 value=&msg.UserAgent
-	goto st285
-tr978:
+	goto st275
+tr958:
 //line sip.rl:484
 value=&msg.Warning
-	goto st285
-tr994:
+	goto st275
+tr974:
 //line sip.rl:485
 value=&msg.WWWAuthenticate
-	goto st285
-	st285:
+	goto st275
+	st275:
+		if p++; p == pe {
+			goto _test_eof275
+		}
+	st_case_275:
+//line msg_parse.go:9697
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		switch _widec {
+		case 9:
+			goto st275
+		case 32:
+			goto st275
+		case 269:
+			goto tr424
+		case 525:
+			goto st276
+		}
+		switch {
+		case _widec > 12:
+			if 14 <= _widec {
+				goto tr424
+			}
+		default:
+			goto tr424
+		}
+		goto st0
+	st276:
+		if p++; p == pe {
+			goto _test_eof276
+		}
+	st_case_276:
+		if data[p] == 10 {
+			goto st277
+		}
+		goto st0
+	st277:
+		if p++; p == pe {
+			goto _test_eof277
+		}
+	st_case_277:
+		switch data[p] {
+		case 9:
+			goto st278
+		case 32:
+			goto st278
+		}
+		goto st0
+	st278:
 		if p++; p == pe {
-			goto _test_eof285
+			goto _test_eof278
 		}
-	st_case_285:
-//line msg_parse.go:10374
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
+	st_case_278:
+		switch data[p] {
+		case 9:
+			goto st278
+		case 32:
+			goto st278
 		}
-		switch _widec {
+		goto tr424
+	st279:
+		if p++; p == pe {
+			goto _test_eof279
+		}
+	st_case_279:
+		switch data[p] {
+		case 67:
+			goto st280
+		case 99:
+			goto st280
+		}
+		goto tr398
+	st280:
+		if p++; p == pe {
+			goto _test_eof280
+		}
+	st_case_280:
+		switch data[p] {
+		case 69:
+			goto st281
+		case 101:
+			goto st281
+		}
+		goto tr398
+	st281:
+		if p++; p == pe {
+			goto _test_eof281
+		}
+	st_case_281:
+		switch data[p] {
+		case 80:
+			goto st282
+		case 112:
+			goto st282
+		}
+		goto tr398
+	st282:
+		if p++; p == pe {
+			goto _test_eof282
+		}
+	st_case_282:
+		switch data[p] {
+		case 84:
+			goto st283
+		case 116:
+			goto st283
+		}
+		goto tr398
+	st283:
+		if p++; p == pe {
+			goto _test_eof283
+		}
+	st_case_283:
+		switch data[p] {
 		case 9:
-			goto st285
+			goto tr432
 		case 32:
+			goto tr432
+		case 45:
+			goto st284
+		case 58:
+			goto tr434
+		}
+		goto tr398
+	st284:
+		if p++; p == pe {
+			goto _test_eof284
+		}
+	st_case_284:
+		switch data[p] {
+		case 67:
 			goto st285
-		case 269:
-			goto tr444
-		case 525:
-			goto st286
+		case 69:
+			goto st292
+		case 76:
+			goto st300
+		case 99:
+			goto st285
+		case 101:
+			goto st292
+		case 108:
+			goto st300
 		}
-		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr444
-			}
-		default:
-			goto tr444
+		goto tr398
+	st285:
+		if p++; p == pe {
+			goto _test_eof285
 		}
-		goto st0
+	st_case_285:
+		switch data[p] {
+		case 79:
+			goto st286
+		case 111:
+			goto st286
+		}
+		goto tr398
 	st286:
 		if p++; p == pe {
 			goto _test_eof286
 		}
 	st_case_286:
-		if data[p] == 10 {
+		switch data[p] {
+		case 78:
+			goto st287
+		case 110:
 			goto st287
 		}
-		goto st0
+		goto tr398
 	st287:
 		if p++; p == pe {
 			goto _test_eof287
 		}
 	st_case_287:
 		switch data[p] {
-		case 9:
+		case 84:
 			goto st288
-		case 32:
+		case 116:
 			goto st288
 		}
-		goto st0
+		goto tr398
 	st288:
 		if p++; p == pe {
 			goto _test_eof288
 		}
 	st_case_288:
 		switch data[p] {
-		case 9:
-			goto st288
-		case 32:
-			goto st288
+		case 65:
+			goto st289
+		case 97:
+			goto st289
 		}
-		goto tr444
+		goto tr398
 	st289:
 		if p++; p == pe {
 			goto _test_eof289
@@ -10450,422 +9905,416 @@ value=&msg.WWWAuthenticate
 		case 99:
 			goto st290
 		}
-		goto tr418
+		goto tr398
 	st290:
 		if p++; p == pe {
 			goto _test_eof290
 		}
 	st_case_290:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st291
-		case 101:
+		case 116:
 			goto st291
 		}
-		goto tr418
+		goto tr398
 	st291:
 		if p++; p == pe {
 			goto _test_eof291
 		}
 	st_case_291:
 		switch data[p] {
-		case 80:
-			goto st292
-		case 112:
-			goto st292
+		case 9:
+			goto tr417
+		case 32:
+			goto tr417
+		case 58:
+			goto tr418
 		}
-		goto tr418
+		goto tr398
 	st292:
 		if p++; p == pe {
 			goto _test_eof292
 		}
 	st_case_292:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st293
-		case 116:
+		case 110:
 			goto st293
 		}
-		goto tr418
+		goto tr398
 	st293:
 		if p++; p == pe {
 			goto _test_eof293
 		}
 	st_case_293:
 		switch data[p] {
-		case 9:
-			goto tr452
-		case 32:
-			goto tr452
-		case 45:
+		case 67:
+			goto st294
+		case 99:
 			goto st294
-		case 58:
-			goto tr454
 		}
-		goto tr418
+		goto tr398
 	st294:
 		if p++; p == pe {
 			goto _test_eof294
 		}
 	st_case_294:
 		switch data[p] {
-		case 67:
+		case 79:
 			goto st295
-		case 69:
-			goto st302
-		case 76:
-			goto st310
-		case 99:
+		case 111:
 			goto st295
-		case 101:
-			goto st302
-		case 108:
-			goto st310
 		}
-		goto tr418
+		goto tr398
 	st295:
 		if p++; p == pe {
 			goto _test_eof295
 		}
 	st_case_295:
 		switch data[p] {
-		case 79:
+		case 68:
 			goto st296
-		case 111:
+		case 100:
 			goto st296
 		}
-		goto tr418
+		goto tr398
 	st296:
 		if p++; p == pe {
 			goto _test_eof296
 		}
 	st_case_296:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st297
-		case 110:
+		case 105:
 			goto st297
 		}
-		goto tr418
+		goto tr398
 	st297:
 		if p++; p == pe {
 			goto _test_eof297
 		}
 	st_case_297:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st298
-		case 116:
+		case 110:
 			goto st298
 		}
-		goto tr418
+		goto tr398
 	st298:
 		if p++; p == pe {
 			goto _test_eof298
 		}
 	st_case_298:
 		switch data[p] {
-		case 65:
+		case 71:
 			goto st299
-		case 97:
+		case 103:
 			goto st299
 		}
-		goto tr418
+		goto tr398
 	st299:
 		if p++; p == pe {
 			goto _test_eof299
 		}
 	st_case_299:
 		switch data[p] {
-		case 67:
-			goto st300
-		case 99:
-			goto st300
+		case 9:
+			goto tr451
+		case 32:
+			goto tr451
+		case 58:
+			goto tr452
 		}
-		goto tr418
+		goto tr398
 	st300:
 		if p++; p == pe {
 			goto _test_eof300
 		}
 	st_case_300:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st301
-		case 116:
+		case 97:
 			goto st301
 		}
-		goto tr418
+		goto tr398
 	st301:
 		if p++; p == pe {
 			goto _test_eof301
 		}
 	st_case_301:
 		switch data[p] {
-		case 9:
-			goto tr437
-		case 32:
-			goto tr437
-		case 58:
-			goto tr438
+		case 78:
+			goto st302
+		case 110:
+			goto st302
 		}
-		goto tr418
+		goto tr398
 	st302:
 		if p++; p == pe {
 			goto _test_eof302
 		}
 	st_case_302:
 		switch data[p] {
-		case 78:
+		case 71:
 			goto st303
-		case 110:
+		case 103:
 			goto st303
 		}
-		goto tr418
+		goto tr398
 	st303:
 		if p++; p == pe {
 			goto _test_eof303
 		}
 	st_case_303:
 		switch data[p] {
-		case 67:
+		case 85:
 			goto st304
-		case 99:
+		case 117:
 			goto st304
 		}
-		goto tr418
+		goto tr398
 	st304:
 		if p++; p == pe {
 			goto _test_eof304
 		}
 	st_case_304:
 		switch data[p] {
-		case 79:
+		case 65:
 			goto st305
-		case 111:
+		case 97:
 			goto st305
 		}
-		goto tr418
+		goto tr398
 	st305:
 		if p++; p == pe {
 			goto _test_eof305
 		}
 	st_case_305:
 		switch data[p] {
-		case 68:
+		case 71:
 			goto st306
-		case 100:
+		case 103:
 			goto st306
 		}
-		goto tr418
+		goto tr398
 	st306:
 		if p++; p == pe {
 			goto _test_eof306
 		}
 	st_case_306:
 		switch data[p] {
-		case 73:
+		case 69:
 			goto st307
-		case 105:
+		case 101:
 			goto st307
 		}
-		goto tr418
+		goto tr398
 	st307:
 		if p++; p == pe {
 			goto _test_eof307
 		}
 	st_case_307:
 		switch data[p] {
-		case 78:
-			goto st308
-		case 110:
-			goto st308
+		case 9:
+			goto tr460
+		case 32:
+			goto tr460
+		case 58:
+			goto tr461
 		}
-		goto tr418
+		goto tr398
 	st308:
 		if p++; p == pe {
 			goto _test_eof308
 		}
 	st_case_308:
 		switch data[p] {
-		case 71:
+		case 69:
 			goto st309
-		case 103:
+		case 76:
+			goto st317
+		case 101:
 			goto st309
+		case 108:
+			goto st317
 		}
-		goto tr418
+		goto tr398
 	st309:
 		if p++; p == pe {
 			goto _test_eof309
 		}
 	st_case_309:
 		switch data[p] {
-		case 9:
-			goto tr471
-		case 32:
-			goto tr471
-		case 58:
-			goto tr472
+		case 82:
+			goto st310
+		case 114:
+			goto st310
 		}
-		goto tr418
+		goto tr398
 	st310:
 		if p++; p == pe {
 			goto _test_eof310
 		}
 	st_case_310:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st311
-		case 97:
+		case 116:
 			goto st311
 		}
-		goto tr418
+		goto tr398
 	st311:
 		if p++; p == pe {
 			goto _test_eof311
 		}
 	st_case_311:
-		switch data[p] {
-		case 78:
-			goto st312
-		case 110:
+		if data[p] == 45 {
 			goto st312
 		}
-		goto tr418
+		goto tr398
 	st312:
 		if p++; p == pe {
 			goto _test_eof312
 		}
 	st_case_312:
 		switch data[p] {
-		case 71:
+		case 73:
 			goto st313
-		case 103:
+		case 105:
 			goto st313
 		}
-		goto tr418
+		goto tr398
 	st313:
 		if p++; p == pe {
 			goto _test_eof313
 		}
 	st_case_313:
 		switch data[p] {
-		case 85:
+		case 78:
 			goto st314
-		case 117:
+		case 110:
 			goto st314
 		}
-		goto tr418
+		goto tr398
 	st314:
 		if p++; p == pe {
 			goto _test_eof314
 		}
 	st_case_314:
 		switch data[p] {
-		case 65:
+		case 70:
 			goto st315
-		case 97:
+		case 102:
 			goto st315
 		}
-		goto tr418
+		goto tr398
 	st315:
 		if p++; p == pe {
 			goto _test_eof315
 		}
 	st_case_315:
 		switch data[p] {
-		case 71:
+		case 79:
 			goto st316
-		case 103:
+		case 111:
 			goto st316
 		}
-		goto tr418
+		goto tr398
 	st316:
 		if p++; p == pe {
 			goto _test_eof316
 		}
 	st_case_316:
 		switch data[p] {
-		case 69:
-			goto st317
-		case 101:
-			goto st317
+		case 9:
+			goto tr471
+		case 32:
+			goto tr471
+		case 58:
+			goto tr472
 		}
-		goto tr418
+		goto tr398
 	st317:
 		if p++; p == pe {
 			goto _test_eof317
 		}
 	st_case_317:
 		switch data[p] {
-		case 9:
-			goto tr480
-		case 32:
-			goto tr480
-		case 58:
-			goto tr481
+		case 79:
+			goto st318
+		case 111:
+			goto st318
 		}
-		goto tr418
+		goto tr398
 	st318:
 		if p++; p == pe {
 			goto _test_eof318
 		}
 	st_case_318:
 		switch data[p] {
-		case 69:
+		case 87:
 			goto st319
-		case 76:
-			goto st327
-		case 101:
+		case 119:
 			goto st319
-		case 108:
-			goto st327
 		}
-		goto tr418
+		goto tr398
 	st319:
 		if p++; p == pe {
 			goto _test_eof319
 		}
 	st_case_319:
 		switch data[p] {
-		case 82:
-			goto st320
-		case 114:
+		case 9:
+			goto tr475
+		case 32:
+			goto tr475
+		case 45:
 			goto st320
+		case 58:
+			goto tr477
 		}
-		goto tr418
+		goto tr398
 	st320:
 		if p++; p == pe {
 			goto _test_eof320
 		}
 	st_case_320:
 		switch data[p] {
-		case 84:
+		case 69:
 			goto st321
-		case 116:
+		case 101:
 			goto st321
 		}
-		goto tr418
+		goto tr398
 	st321:
 		if p++; p == pe {
 			goto _test_eof321
 		}
 	st_case_321:
-		if data[p] == 45 {
+		switch data[p] {
+		case 86:
+			goto st322
+		case 118:
 			goto st322
 		}
-		goto tr418
+		goto tr398
 	st322:
 		if p++; p == pe {
 			goto _test_eof322
 		}
 	st_case_322:
 		switch data[p] {
-		case 73:
+		case 69:
 			goto st323
-		case 105:
+		case 101:
 			goto st323
 		}
-		goto tr418
+		goto tr398
 	st323:
 		if p++; p == pe {
 			goto _test_eof323
@@ -10877,31 +10326,31 @@ value=&msg.WWWAuthenticate
 		case 110:
 			goto st324
 		}
-		goto tr418
+		goto tr398
 	st324:
 		if p++; p == pe {
 			goto _test_eof324
 		}
 	st_case_324:
 		switch data[p] {
-		case 70:
+		case 84:
 			goto st325
-		case 102:
+		case 116:
 			goto st325
 		}
-		goto tr418
+		goto tr398
 	st325:
 		if p++; p == pe {
 			goto _test_eof325
 		}
 	st_case_325:
 		switch data[p] {
-		case 79:
+		case 83:
 			goto st326
-		case 111:
+		case 115:
 			goto st326
 		}
-		goto tr418
+		goto tr398
 	st326:
 		if p++; p == pe {
 			goto _test_eof326
@@ -10909,527 +10358,401 @@ value=&msg.WWWAuthenticate
 	st_case_326:
 		switch data[p] {
 		case 9:
-			goto tr491
+			goto tr484
 		case 32:
-			goto tr491
+			goto tr484
 		case 58:
-			goto tr492
+			goto tr485
 		}
-		goto tr418
+		goto tr398
 	st327:
 		if p++; p == pe {
 			goto _test_eof327
 		}
 	st_case_327:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st328
-		case 111:
+		case 116:
 			goto st328
 		}
-		goto tr418
+		goto tr398
 	st328:
 		if p++; p == pe {
 			goto _test_eof328
 		}
 	st_case_328:
 		switch data[p] {
-		case 87:
+		case 72:
 			goto st329
-		case 119:
+		case 104:
 			goto st329
 		}
-		goto tr418
+		goto tr398
 	st329:
 		if p++; p == pe {
 			goto _test_eof329
 		}
 	st_case_329:
 		switch data[p] {
-		case 9:
-			goto tr495
-		case 32:
-			goto tr495
-		case 45:
+		case 69:
 			goto st330
-		case 58:
-			goto tr497
+		case 79:
+			goto st345
+		case 101:
+			goto st330
+		case 111:
+			goto st345
 		}
-		goto tr418
+		goto tr398
 	st330:
 		if p++; p == pe {
 			goto _test_eof330
 		}
 	st_case_330:
 		switch data[p] {
-		case 69:
+		case 78:
 			goto st331
-		case 101:
+		case 110:
 			goto st331
 		}
-		goto tr418
+		goto tr398
 	st331:
 		if p++; p == pe {
 			goto _test_eof331
 		}
 	st_case_331:
 		switch data[p] {
-		case 86:
+		case 84:
 			goto st332
-		case 118:
+		case 116:
 			goto st332
 		}
-		goto tr418
+		goto tr398
 	st332:
 		if p++; p == pe {
 			goto _test_eof332
 		}
 	st_case_332:
 		switch data[p] {
-		case 69:
+		case 73:
 			goto st333
-		case 101:
+		case 105:
 			goto st333
 		}
-		goto tr418
+		goto tr398
 	st333:
 		if p++; p == pe {
 			goto _test_eof333
 		}
 	st_case_333:
 		switch data[p] {
-		case 78:
+		case 67:
 			goto st334
-		case 110:
+		case 99:
 			goto st334
 		}
-		goto tr418
+		goto tr398
 	st334:
 		if p++; p == pe {
 			goto _test_eof334
 		}
 	st_case_334:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st335
-		case 116:
+		case 97:
 			goto st335
 		}
-		goto tr418
+		goto tr398
 	st335:
 		if p++; p == pe {
 			goto _test_eof335
 		}
 	st_case_335:
 		switch data[p] {
-		case 83:
+		case 84:
 			goto st336
-		case 115:
+		case 116:
 			goto st336
 		}
-		goto tr418
+		goto tr398
 	st336:
 		if p++; p == pe {
 			goto _test_eof336
 		}
 	st_case_336:
 		switch data[p] {
-		case 9:
-			goto tr504
-		case 32:
-			goto tr504
-		case 58:
-			goto tr505
+		case 73:
+			goto st337
+		case 105:
+			goto st337
 		}
-		goto tr418
+		goto tr398
 	st337:
 		if p++; p == pe {
 			goto _test_eof337
 		}
 	st_case_337:
 		switch data[p] {
-		case 84:
+		case 79:
 			goto st338
-		case 116:
+		case 111:
 			goto st338
 		}
-		goto tr418
+		goto tr398
 	st338:
 		if p++; p == pe {
 			goto _test_eof338
 		}
 	st_case_338:
 		switch data[p] {
-		case 72:
+		case 78:
 			goto st339
-		case 104:
+		case 110:
 			goto st339
 		}
-		goto tr418
+		goto tr398
 	st339:
 		if p++; p == pe {
 			goto _test_eof339
 		}
 	st_case_339:
-		switch data[p] {
-		case 69:
-			goto st340
-		case 79:
-			goto st355
-		case 101:
+		if data[p] == 45 {
 			goto st340
-		case 111:
-			goto st355
 		}
-		goto tr418
+		goto tr398
 	st340:
 		if p++; p == pe {
 			goto _test_eof340
 		}
 	st_case_340:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st341
-		case 110:
+		case 105:
 			goto st341
 		}
-		goto tr418
+		goto tr398
 	st341:
 		if p++; p == pe {
 			goto _test_eof341
 		}
 	st_case_341:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st342
-		case 116:
+		case 110:
 			goto st342
 		}
-		goto tr418
+		goto tr398
 	st342:
 		if p++; p == pe {
 			goto _test_eof342
 		}
 	st_case_342:
 		switch data[p] {
-		case 73:
+		case 70:
 			goto st343
-		case 105:
+		case 102:
 			goto st343
 		}
-		goto tr418
+		goto tr398
 	st343:
 		if p++; p == pe {
-			goto _test_eof343
-		}
-	st_case_343:
-		switch data[p] {
-		case 67:
-			goto st344
-		case 99:
-			goto st344
-		}
-		goto tr418
-	st344:
-		if p++; p == pe {
-			goto _test_eof344
-		}
-	st_case_344:
-		switch data[p] {
-		case 65:
-			goto st345
-		case 97:
-			goto st345
-		}
-		goto tr418
-	st345:
-		if p++; p == pe {
-			goto _test_eof345
-		}
-	st_case_345:
-		switch data[p] {
-		case 84:
-			goto st346
-		case 116:
-			goto st346
-		}
-		goto tr418
-	st346:
-		if p++; p == pe {
-			goto _test_eof346
-		}
-	st_case_346:
-		switch data[p] {
-		case 73:
-			goto st347
-		case 105:
-			goto st347
-		}
-		goto tr418
-	st347:
-		if p++; p == pe {
-			goto _test_eof347
-		}
-	st_case_347:
-		switch data[p] {
-		case 79:
-			goto st348
-		case 111:
-			goto st348
-		}
-		goto tr418
-	st348:
-		if p++; p == pe {
-			goto _test_eof348
-		}
-	st_case_348:
-		switch data[p] {
-		case 78:
-			goto st349
-		case 110:
-			goto st349
-		}
-		goto tr418
-	st349:
-		if p++; p == pe {
-			goto _test_eof349
-		}
-	st_case_349:
-		if data[p] == 45 {
-			goto st350
-		}
-		goto tr418
-	st350:
-		if p++; p == pe {
-			goto _test_eof350
-		}
-	st_case_350:
-		switch data[p] {
-		case 73:
-			goto st351
-		case 105:
-			goto st351
-		}
-		goto tr418
-	st351:
-		if p++; p == pe {
-			goto _test_eof351
-		}
-	st_case_351:
-		switch data[p] {
-		case 78:
-			goto st352
-		case 110:
-			goto st352
-		}
-		goto tr418
-	st352:
-		if p++; p == pe {
-			goto _test_eof352
-		}
-	st_case_352:
-		switch data[p] {
-		case 70:
-			goto st353
-		case 102:
-			goto st353
-		}
-		goto tr418
-	st353:
-		if p++; p == pe {
-			goto _test_eof353
+			goto _test_eof343
 		}
-	st_case_353:
+	st_case_343:
 		switch data[p] {
 		case 79:
-			goto st354
+			goto st344
 		case 111:
-			goto st354
+			goto st344
 		}
-		goto tr418
-	st354:
+		goto tr398
+	st344:
 		if p++; p == pe {
-			goto _test_eof354
+			goto _test_eof344
 		}
-	st_case_354:
+	st_case_344:
 		switch data[p] {
 		case 9:
-			goto tr524
+			goto tr504
 		case 32:
-			goto tr524
+			goto tr504
 		case 58:
-			goto tr525
+			goto tr505
 		}
-		goto tr418
-	st355:
+		goto tr398
+	st345:
 		if p++; p == pe {
-			goto _test_eof355
+			goto _test_eof345
 		}
-	st_case_355:
+	st_case_345:
 		switch data[p] {
 		case 82:
-			goto st356
+			goto st346
 		case 114:
-			goto st356
+			goto st346
 		}
-		goto tr418
-	st356:
+		goto tr398
+	st346:
 		if p++; p == pe {
-			goto _test_eof356
+			goto _test_eof346
 		}
-	st_case_356:
+	st_case_346:
 		switch data[p] {
 		case 73:
-			goto st357
+			goto st347
 		case 105:
-			goto st357
+			goto st347
 		}
-		goto tr418
-	st357:
+		goto tr398
+	st347:
 		if p++; p == pe {
-			goto _test_eof357
+			goto _test_eof347
 		}
-	st_case_357:
+	st_case_347:
 		switch data[p] {
 		case 90:
-			goto st358
+			goto st348
 		case 122:
-			goto st358
+			goto st348
 		}
-		goto tr418
-	st358:
+		goto tr398
+	st348:
 		if p++; p == pe {
-			goto _test_eof358
+			goto _test_eof348
 		}
-	st_case_358:
+	st_case_348:
 		switch data[p] {
 		case 65:
-			goto st359
+			goto st349
 		case 97:
-			goto st359
+			goto st349
 		}
-		goto tr418
-	st359:
+		goto tr398
+	st349:
 		if p++; p == pe {
-			goto _test_eof359
+			goto _test_eof349
 		}
-	st_case_359:
+	st_case_349:
 		switch data[p] {
 		case 84:
-			goto st360
+			goto st350
 		case 116:
-			goto st360
+			goto st350
 		}
-		goto tr418
-	st360:
+		goto tr398
+	st350:
 		if p++; p == pe {
-			goto _test_eof360
+			goto _test_eof350
 		}
-	st_case_360:
+	st_case_350:
 		switch data[p] {
 		case 73:
-			goto st361
+			goto st351
 		case 105:
-			goto st361
+			goto st351
 		}
-		goto tr418
-	st361:
+		goto tr398
+	st351:
 		if p++; p == pe {
-			goto _test_eof361
+			goto _test_eof351
 		}
-	st_case_361:
+	st_case_351:
 		switch data[p] {
 		case 79:
-			goto st362
+			goto st352
 		case 111:
-			goto st362
+			goto st352
 		}
-		goto tr418
-	st362:
+		goto tr398
+	st352:
 		if p++; p == pe {
-			goto _test_eof362
+			goto _test_eof352
 		}
-	st_case_362:
+	st_case_352:
 		switch data[p] {
 		case 78:
-			goto st363
+			goto st353
 		case 110:
-			goto st363
+			goto st353
 		}
-		goto tr418
-	st363:
+		goto tr398
+	st353:
 		if p++; p == pe {
-			goto _test_eof363
+			goto _test_eof353
 		}
-	st_case_363:
+	st_case_353:
 		switch data[p] {
 		case 9:
-			goto tr534
+			goto tr514
 		case 32:
-			goto tr534
+			goto tr514
 		case 58:
-			goto tr535
+			goto tr515
 		}
-		goto tr418
-	st364:
+		goto tr398
+	st354:
 		if p++; p == pe {
-			goto _test_eof364
+			goto _test_eof354
 		}
-	st_case_364:
+	st_case_354:
 		switch data[p] {
 		case 9:
-			goto tr536
+			goto tr516
 		case 32:
-			goto tr536
+			goto tr516
 		case 58:
-			goto tr537
+			goto tr517
 		}
-		goto tr418
-	st365:
+		goto tr398
+	st355:
 		if p++; p == pe {
-			goto _test_eof365
+			goto _test_eof355
 		}
-	st_case_365:
+	st_case_355:
 		switch data[p] {
 		case 9:
-			goto st366
+			goto st356
 		case 32:
-			goto st366
+			goto st356
 		case 58:
-			goto st367
+			goto st357
 		case 65:
-			goto st371
+			goto st361
 		case 79:
-			goto st389
+			goto st379
 		case 83:
-			goto st446
+			goto st436
 		case 97:
-			goto st371
+			goto st361
 		case 111:
-			goto st389
+			goto st379
 		case 115:
-			goto st446
+			goto st436
 		}
-		goto tr418
-	st366:
+		goto tr398
+	st356:
 		if p++; p == pe {
-			goto _test_eof366
+			goto _test_eof356
 		}
-	st_case_366:
+	st_case_356:
 		switch data[p] {
 		case 9:
-			goto st366
+			goto st356
 		case 32:
-			goto st366
+			goto st356
 		case 58:
-			goto st367
+			goto st357
 		}
 		goto st0
-	st367:
+	st357:
 		if p++; p == pe {
-			goto _test_eof367
+			goto _test_eof357
 		}
-	st_case_367:
+	st_case_357:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11439,150 +10762,150 @@ value=&msg.WWWAuthenticate
 		}
 		switch _widec {
 		case 9:
-			goto st367
+			goto st357
 		case 32:
-			goto st367
+			goto st357
 		case 269:
-			goto tr543
+			goto tr523
 		case 525:
-			goto st368
+			goto st358
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr543
+				goto tr523
 			}
 		default:
-			goto tr543
+			goto tr523
 		}
 		goto st0
-	st368:
+	st358:
 		if p++; p == pe {
-			goto _test_eof368
+			goto _test_eof358
 		}
-	st_case_368:
+	st_case_358:
 		if data[p] == 10 {
-			goto st369
+			goto st359
 		}
 		goto st0
-	st369:
+	st359:
 		if p++; p == pe {
-			goto _test_eof369
+			goto _test_eof359
 		}
-	st_case_369:
+	st_case_359:
 		switch data[p] {
 		case 9:
-			goto st370
+			goto st360
 		case 32:
-			goto st370
+			goto st360
 		}
 		goto st0
-	st370:
+	st360:
 		if p++; p == pe {
-			goto _test_eof370
+			goto _test_eof360
 		}
-	st_case_370:
+	st_case_360:
 		switch data[p] {
 		case 9:
-			goto st370
+			goto st360
 		case 32:
-			goto st370
+			goto st360
 		}
-		goto tr543
-	st371:
+		goto tr523
+	st361:
 		if p++; p == pe {
-			goto _test_eof371
+			goto _test_eof361
 		}
-	st_case_371:
+	st_case_361:
 		switch data[p] {
 		case 76:
-			goto st372
+			goto st362
 		case 108:
-			goto st372
+			goto st362
 		}
-		goto tr418
-	st372:
+		goto tr398
+	st362:
 		if p++; p == pe {
-			goto _test_eof372
+			goto _test_eof362
 		}
-	st_case_372:
+	st_case_362:
 		switch data[p] {
 		case 76:
-			goto st373
+			goto st363
 		case 108:
-			goto st373
+			goto st363
 		}
-		goto tr418
-	st373:
+		goto tr398
+	st363:
 		if p++; p == pe {
-			goto _test_eof373
+			goto _test_eof363
 		}
-	st_case_373:
+	st_case_363:
 		if data[p] == 45 {
-			goto st374
+			goto st364
 		}
-		goto tr418
-	st374:
+		goto tr398
+	st364:
 		if p++; p == pe {
-			goto _test_eof374
+			goto _test_eof364
 		}
-	st_case_374:
+	st_case_364:
 		switch data[p] {
 		case 73:
-			goto st375
+			goto st365
 		case 105:
-			goto st375
+			goto st365
 		}
-		goto tr418
-	st375:
+		goto tr398
+	st365:
 		if p++; p == pe {
-			goto _test_eof375
+			goto _test_eof365
 		}
-	st_case_375:
+	st_case_365:
 		switch data[p] {
 		case 68:
-			goto st376
+			goto st366
 		case 78:
-			goto st386
-		case 100:
 			goto st376
+		case 100:
+			goto st366
 		case 110:
-			goto st386
+			goto st376
 		}
-		goto tr418
-	st376:
+		goto tr398
+	st366:
 		if p++; p == pe {
-			goto _test_eof376
+			goto _test_eof366
 		}
-	st_case_376:
+	st_case_366:
 		switch data[p] {
 		case 9:
-			goto st377
+			goto st367
 		case 32:
-			goto st377
+			goto st367
 		case 58:
-			goto st378
+			goto st368
 		}
-		goto tr418
-	st377:
+		goto tr398
+	st367:
 		if p++; p == pe {
-			goto _test_eof377
+			goto _test_eof367
 		}
-	st_case_377:
+	st_case_367:
 		switch data[p] {
 		case 9:
-			goto st377
+			goto st367
 		case 32:
-			goto st377
+			goto st367
 		case 58:
-			goto st378
+			goto st368
 		}
 		goto st0
-	st378:
+	st368:
 		if p++; p == pe {
-			goto _test_eof378
+			goto _test_eof368
 		}
-	st_case_378:
+	st_case_368:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11592,59 +10915,59 @@ value=&msg.WWWAuthenticate
 		}
 		switch _widec {
 		case 9:
-			goto st378
+			goto st368
 		case 32:
-			goto st378
+			goto st368
 		case 37:
-			goto tr555
+			goto tr535
 		case 60:
-			goto tr555
+			goto tr535
 		case 525:
-			goto st383
+			goto st373
 		}
 		switch {
 		case _widec < 62:
 			switch {
 			case _widec < 39:
 				if 33 <= _widec && _widec <= 34 {
-					goto tr555
+					goto tr535
 				}
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 58 {
-					goto tr555
+					goto tr535
 				}
 			default:
-				goto tr555
+				goto tr535
 			}
 		case _widec > 63:
 			switch {
 			case _widec < 95:
 				if 65 <= _widec && _widec <= 93 {
-					goto tr555
+					goto tr535
 				}
 			case _widec > 123:
 				if 125 <= _widec && _widec <= 126 {
-					goto tr555
+					goto tr535
 				}
 			default:
-				goto tr555
+				goto tr535
 			}
 		default:
-			goto tr555
+			goto tr535
 		}
 		goto st0
-tr555:
+tr535:
 //line sip.rl:80
 
 	mark = p
 
-	goto st379
-	st379:
+	goto st369
+	st369:
 		if p++; p == pe {
-			goto _test_eof379
+			goto _test_eof369
 		}
-	st_case_379:
-//line msg_parse.go:11639
+	st_case_369:
+//line msg_parse.go:10962
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11654,88 +10977,88 @@ tr555:
 		}
 		switch _widec {
 		case 37:
-			goto st379
+			goto st369
 		case 60:
-			goto st379
+			goto st369
 		case 64:
-			goto st380
+			goto st370
 		case 269:
-			goto tr559
+			goto tr539
 		}
 		switch {
 		case _widec < 45:
 			switch {
 			case _widec > 34:
 				if 39 <= _widec && _widec <= 43 {
-					goto st379
+					goto st369
 				}
 			case _widec >= 33:
-				goto st379
+				goto st369
 			}
 		case _widec > 58:
 			switch {
 			case _widec < 95:
 				if 62 <= _widec && _widec <= 93 {
-					goto st379
+					goto st369
 				}
 			case _widec > 123:
 				if 125 <= _widec && _widec <= 126 {
-					goto st379
+					goto st369
 				}
 			default:
-				goto st379
+				goto st369
 			}
 		default:
-			goto st379
+			goto st369
 		}
 		goto st0
-	st380:
+	st370:
 		if p++; p == pe {
-			goto _test_eof380
+			goto _test_eof370
 		}
-	st_case_380:
+	st_case_370:
 		switch data[p] {
 		case 37:
-			goto st381
+			goto st371
 		case 60:
-			goto st381
+			goto st371
 		}
 		switch {
 		case data[p] < 62:
 			switch {
 			case data[p] < 39:
 				if 33 <= data[p] && data[p] <= 34 {
-					goto st381
+					goto st371
 				}
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 58 {
-					goto st381
+					goto st371
 				}
 			default:
-				goto st381
+				goto st371
 			}
 		case data[p] > 63:
 			switch {
 			case data[p] < 95:
 				if 65 <= data[p] && data[p] <= 93 {
-					goto st381
+					goto st371
 				}
 			case data[p] > 123:
 				if 125 <= data[p] && data[p] <= 126 {
-					goto st381
+					goto st371
 				}
 			default:
-				goto st381
+				goto st371
 			}
 		default:
-			goto st381
+			goto st371
 		}
 		goto st0
-	st381:
+	st371:
 		if p++; p == pe {
-			goto _test_eof381
+			goto _test_eof371
 		}
-	st_case_381:
+	st_case_371:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11745,156 +11068,360 @@ tr555:
 		}
 		switch _widec {
 		case 37:
-			goto st381
+			goto st371
 		case 60:
-			goto st381
+			goto st371
 		case 269:
-			goto tr559
+			goto tr539
 		}
 		switch {
 		case _widec < 62:
 			switch {
 			case _widec < 39:
 				if 33 <= _widec && _widec <= 34 {
-					goto st381
+					goto st371
 				}
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 58 {
-					goto st381
+					goto st371
 				}
 			default:
-				goto st381
+				goto st371
 			}
 		case _widec > 63:
 			switch {
 			case _widec < 95:
 				if 65 <= _widec && _widec <= 93 {
-					goto st381
+					goto st371
 				}
 			case _widec > 123:
 				if 125 <= _widec && _widec <= 126 {
-					goto st381
+					goto st371
 				}
 			default:
-				goto st381
+				goto st371
 			}
 		default:
-			goto st381
+			goto st371
 		}
 		goto st0
-tr559:
+tr539:
 //line sip.rl:220
 
 	msg.CallID = string(data[mark:p])
 
-	goto st382
-tr644:
+	goto st372
+tr624:
 //line sip.rl:236
 
 	msg.CSeqMethod = string(data[mark:p])
 
-	goto st382
+	goto st372
+	st372:
+		if p++; p == pe {
+			goto _test_eof372
+		}
+	st_case_372:
+//line msg_parse.go:11117
+		if data[p] == 10 {
+			goto tr541
+		}
+		goto st0
+	st373:
+		if p++; p == pe {
+			goto _test_eof373
+		}
+	st_case_373:
+		if data[p] == 10 {
+			goto st374
+		}
+		goto st0
+	st374:
+		if p++; p == pe {
+			goto _test_eof374
+		}
+	st_case_374:
+		switch data[p] {
+		case 9:
+			goto st375
+		case 32:
+			goto st375
+		}
+		goto st0
+	st375:
+		if p++; p == pe {
+			goto _test_eof375
+		}
+	st_case_375:
+		switch data[p] {
+		case 9:
+			goto st375
+		case 32:
+			goto st375
+		case 37:
+			goto tr535
+		case 60:
+			goto tr535
+		}
+		switch {
+		case data[p] < 62:
+			switch {
+			case data[p] < 39:
+				if 33 <= data[p] && data[p] <= 34 {
+					goto tr535
+				}
+			case data[p] > 43:
+				if 45 <= data[p] && data[p] <= 58 {
+					goto tr535
+				}
+			default:
+				goto tr535
+			}
+		case data[p] > 63:
+			switch {
+			case data[p] < 95:
+				if 65 <= data[p] && data[p] <= 93 {
+					goto tr535
+				}
+			case data[p] > 123:
+				if 125 <= data[p] && data[p] <= 126 {
+					goto tr535
+				}
+			default:
+				goto tr535
+			}
+		default:
+			goto tr535
+		}
+		goto st0
+	st376:
+		if p++; p == pe {
+			goto _test_eof376
+		}
+	st_case_376:
+		switch data[p] {
+		case 70:
+			goto st377
+		case 102:
+			goto st377
+		}
+		goto tr398
+	st377:
+		if p++; p == pe {
+			goto _test_eof377
+		}
+	st_case_377:
+		switch data[p] {
+		case 79:
+			goto st378
+		case 111:
+			goto st378
+		}
+		goto tr398
+	st378:
+		if p++; p == pe {
+			goto _test_eof378
+		}
+	st_case_378:
+		switch data[p] {
+		case 9:
+			goto tr546
+		case 32:
+			goto tr546
+		case 58:
+			goto tr547
+		}
+		goto tr398
+	st379:
+		if p++; p == pe {
+			goto _test_eof379
+		}
+	st_case_379:
+		switch data[p] {
+		case 78:
+			goto st380
+		case 110:
+			goto st380
+		}
+		goto tr398
+	st380:
+		if p++; p == pe {
+			goto _test_eof380
+		}
+	st_case_380:
+		switch data[p] {
+		case 84:
+			goto st381
+		case 116:
+			goto st381
+		}
+		goto tr398
+	st381:
+		if p++; p == pe {
+			goto _test_eof381
+		}
+	st_case_381:
+		switch data[p] {
+		case 65:
+			goto st382
+		case 69:
+			goto st390
+		case 97:
+			goto st382
+		case 101:
+			goto st390
+		}
+		goto tr398
 	st382:
 		if p++; p == pe {
 			goto _test_eof382
 		}
 	st_case_382:
-//line msg_parse.go:11794
-		if data[p] == 10 {
-			goto tr561
+		switch data[p] {
+		case 67:
+			goto st383
+		case 99:
+			goto st383
 		}
-		goto st0
+		goto tr398
 	st383:
 		if p++; p == pe {
 			goto _test_eof383
 		}
 	st_case_383:
-		if data[p] == 10 {
+		switch data[p] {
+		case 84:
+			goto st384
+		case 116:
 			goto st384
 		}
-		goto st0
+		goto tr398
 	st384:
 		if p++; p == pe {
 			goto _test_eof384
 		}
 	st_case_384:
+		switch data[p] {
+		case 9:
+			goto tr554
+		case 32:
+			goto tr554
+		case 58:
+			goto tr555
+		}
+		goto tr398
+tr554:
+//line sip.rl:437
+addrp=lastAddr(&msg.Contact)
+	goto st385
+tr664:
+//line sip.rl:438
+addrp=lastAddr(&msg.From)
+	goto st385
+tr762:
+//line sip.rl:439
+addrp=lastAddr(&msg.PAssertedIdentity)
+	goto st385
+tr829:
+//line sip.rl:440
+addrp=lastAddr(&msg.RecordRoute)
+	goto st385
+tr853:
+//line sip.rl:441
+addrp=lastAddr(&msg.RemotePartyID)
+	goto st385
+tr881:
+//line sip.rl:442
+addrp=lastAddr(&msg.Route)
+	goto st385
+tr904:
+//line sip.rl:443
+addrp=lastAddr(&msg.To)
+	goto st385
+	st385:
+		if p++; p == pe {
+			goto _test_eof385
+		}
+	st_case_385:
+//line msg_parse.go:11338
 		switch data[p] {
 		case 9:
 			goto st385
 		case 32:
 			goto st385
+		case 58:
+			goto st386
 		}
 		goto st0
-	st385:
+tr555:
+//line sip.rl:437
+addrp=lastAddr(&msg.Contact)
+	goto st386
+tr665:
+//line sip.rl:438
+addrp=lastAddr(&msg.From)
+	goto st386
+tr763:
+//line sip.rl:439
+addrp=lastAddr(&msg.PAssertedIdentity)
+	goto st386
+tr830:
+//line sip.rl:440
+addrp=lastAddr(&msg.RecordRoute)
+	goto st386
+tr854:
+//line sip.rl:441
+addrp=lastAddr(&msg.RemotePartyID)
+	goto st386
+tr882:
+//line sip.rl:442
+addrp=lastAddr(&msg.Route)
+	goto st386
+tr905:
+//line sip.rl:443
+addrp=lastAddr(&msg.To)
+	goto st386
+	st386:
 		if p++; p == pe {
-			goto _test_eof385
+			goto _test_eof386
 		}
-	st_case_385:
-		switch data[p] {
+	st_case_386:
+//line msg_parse.go:11381
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		switch _widec {
 		case 9:
-			goto st385
+			goto st386
 		case 32:
-			goto st385
-		case 37:
-			goto tr555
-		case 60:
-			goto tr555
+			goto st386
+		case 269:
+			goto tr558
+		case 525:
+			goto st387
 		}
 		switch {
-		case data[p] < 62:
-			switch {
-			case data[p] < 39:
-				if 33 <= data[p] && data[p] <= 34 {
-					goto tr555
-				}
-			case data[p] > 43:
-				if 45 <= data[p] && data[p] <= 58 {
-					goto tr555
-				}
-			default:
-				goto tr555
-			}
-		case data[p] > 63:
-			switch {
-			case data[p] < 95:
-				if 65 <= data[p] && data[p] <= 93 {
-					goto tr555
-				}
-			case data[p] > 123:
-				if 125 <= data[p] && data[p] <= 126 {
-					goto tr555
-				}
-			default:
-				goto tr555
+		case _widec > 12:
+			if 14 <= _widec {
+				goto tr558
 			}
 		default:
-			goto tr555
+			goto tr558
 		}
 		goto st0
-	st386:
-		if p++; p == pe {
-			goto _test_eof386
-		}
-	st_case_386:
-		switch data[p] {
-		case 70:
-			goto st387
-		case 102:
-			goto st387
-		}
-		goto tr418
 	st387:
 		if p++; p == pe {
 			goto _test_eof387
 		}
 	st_case_387:
-		switch data[p] {
-		case 79:
-			goto st388
-		case 111:
+		if data[p] == 10 {
 			goto st388
 		}
-		goto tr418
+		goto st0
 	st388:
 		if p++; p == pe {
 			goto _test_eof388
@@ -11902,320 +11429,238 @@ tr644:
 	st_case_388:
 		switch data[p] {
 		case 9:
-			goto tr566
+			goto st389
 		case 32:
-			goto tr566
-		case 58:
-			goto tr567
+			goto st389
 		}
-		goto tr418
+		goto st0
 	st389:
 		if p++; p == pe {
 			goto _test_eof389
 		}
 	st_case_389:
 		switch data[p] {
-		case 78:
-			goto st390
-		case 110:
-			goto st390
+		case 9:
+			goto st389
+		case 32:
+			goto st389
 		}
-		goto tr418
+		goto tr558
 	st390:
 		if p++; p == pe {
 			goto _test_eof390
 		}
 	st_case_390:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st391
-		case 116:
+		case 110:
 			goto st391
 		}
-		goto tr418
+		goto tr398
 	st391:
 		if p++; p == pe {
 			goto _test_eof391
 		}
 	st_case_391:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st392
-		case 69:
-			goto st400
-		case 97:
+		case 116:
 			goto st392
-		case 101:
-			goto st400
 		}
-		goto tr418
+		goto tr398
 	st392:
 		if p++; p == pe {
 			goto _test_eof392
 		}
 	st_case_392:
-		switch data[p] {
-		case 67:
-			goto st393
-		case 99:
+		if data[p] == 45 {
 			goto st393
 		}
-		goto tr418
+		goto tr398
 	st393:
 		if p++; p == pe {
 			goto _test_eof393
 		}
 	st_case_393:
 		switch data[p] {
+		case 68:
+			goto st394
+		case 69:
+			goto st405
+		case 76:
+			goto st413
 		case 84:
+			goto st432
+		case 100:
 			goto st394
+		case 101:
+			goto st405
+		case 108:
+			goto st413
 		case 116:
-			goto st394
+			goto st432
 		}
-		goto tr418
+		goto tr398
 	st394:
 		if p++; p == pe {
 			goto _test_eof394
 		}
 	st_case_394:
 		switch data[p] {
-		case 9:
-			goto tr574
-		case 32:
-			goto tr574
-		case 58:
-			goto tr575
+		case 73:
+			goto st395
+		case 105:
+			goto st395
 		}
-		goto tr418
-tr574:
-//line sip.rl:437
-addrp=lastAddr(&msg.Contact)
-	goto st395
-tr684:
-//line sip.rl:438
-addrp=lastAddr(&msg.From)
-	goto st395
-tr782:
-//line sip.rl:439
-addrp=lastAddr(&msg.PAssertedIdentity)
-	goto st395
-tr849:
-//line sip.rl:440
-addrp=lastAddr(&msg.RecordRoute)
-	goto st395
-tr873:
-//line sip.rl:441
-addrp=lastAddr(&msg.RemotePartyID)
-	goto st395
-tr901:
-//line sip.rl:442
-addrp=lastAddr(&msg.Route)
-	goto st395
-tr924:
-//line sip.rl:443
-addrp=lastAddr(&msg.To)
-	goto st395
+		goto tr398
 	st395:
 		if p++; p == pe {
 			goto _test_eof395
 		}
 	st_case_395:
-//line msg_parse.go:12015
 		switch data[p] {
-		case 9:
-			goto st395
-		case 32:
-			goto st395
-		case 58:
+		case 83:
+			goto st396
+		case 115:
 			goto st396
 		}
-		goto st0
-tr575:
-//line sip.rl:437
-addrp=lastAddr(&msg.Contact)
-	goto st396
-tr685:
-//line sip.rl:438
-addrp=lastAddr(&msg.From)
-	goto st396
-tr783:
-//line sip.rl:439
-addrp=lastAddr(&msg.PAssertedIdentity)
-	goto st396
-tr850:
-//line sip.rl:440
-addrp=lastAddr(&msg.RecordRoute)
-	goto st396
-tr874:
-//line sip.rl:441
-addrp=lastAddr(&msg.RemotePartyID)
-	goto st396
-tr902:
-//line sip.rl:442
-addrp=lastAddr(&msg.Route)
-	goto st396
-tr925:
-//line sip.rl:443
-addrp=lastAddr(&msg.To)
-	goto st396
+		goto tr398
 	st396:
 		if p++; p == pe {
 			goto _test_eof396
 		}
 	st_case_396:
-//line msg_parse.go:12058
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st396
-		case 32:
-			goto st396
-		case 269:
-			goto tr578
-		case 525:
+		switch data[p] {
+		case 80:
+			goto st397
+		case 112:
 			goto st397
 		}
-		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr578
-			}
-		default:
-			goto tr578
-		}
-		goto st0
+		goto tr398
 	st397:
 		if p++; p == pe {
 			goto _test_eof397
 		}
 	st_case_397:
-		if data[p] == 10 {
+		switch data[p] {
+		case 79:
+			goto st398
+		case 111:
 			goto st398
 		}
-		goto st0
+		goto tr398
 	st398:
 		if p++; p == pe {
 			goto _test_eof398
 		}
 	st_case_398:
 		switch data[p] {
-		case 9:
+		case 83:
 			goto st399
-		case 32:
+		case 115:
 			goto st399
 		}
-		goto st0
+		goto tr398
 	st399:
 		if p++; p == pe {
 			goto _test_eof399
 		}
 	st_case_399:
 		switch data[p] {
-		case 9:
-			goto st399
-		case 32:
-			goto st399
+		case 73:
+			goto st400
+		case 105:
+			goto st400
 		}
-		goto tr578
+		goto tr398
 	st400:
 		if p++; p == pe {
 			goto _test_eof400
 		}
 	st_case_400:
 		switch data[p] {
-		case 78:
+		case 84:
 			goto st401
-		case 110:
+		case 116:
 			goto st401
 		}
-		goto tr418
+		goto tr398
 	st401:
 		if p++; p == pe {
 			goto _test_eof401
 		}
 	st_case_401:
 		switch data[p] {
-		case 84:
+		case 73:
 			goto st402
-		case 116:
+		case 105:
 			goto st402
 		}
-		goto tr418
+		goto tr398
 	st402:
 		if p++; p == pe {
 			goto _test_eof402
 		}
 	st_case_402:
-		if data[p] == 45 {
+		switch data[p] {
+		case 79:
+			goto st403
+		case 111:
 			goto st403
 		}
-		goto tr418
+		goto tr398
 	st403:
 		if p++; p == pe {
 			goto _test_eof403
 		}
 	st_case_403:
 		switch data[p] {
-		case 68:
+		case 78:
 			goto st404
-		case 69:
-			goto st415
-		case 76:
-			goto st423
-		case 84:
-			goto st442
-		case 100:
+		case 110:
 			goto st404
-		case 101:
-			goto st415
-		case 108:
-			goto st423
-		case 116:
-			goto st442
 		}
-		goto tr418
+		goto tr398
 	st404:
 		if p++; p == pe {
 			goto _test_eof404
 		}
 	st_case_404:
 		switch data[p] {
-		case 73:
-			goto st405
-		case 105:
-			goto st405
+		case 9:
+			goto tr579
+		case 32:
+			goto tr579
+		case 58:
+			goto tr580
 		}
-		goto tr418
+		goto tr398
 	st405:
 		if p++; p == pe {
 			goto _test_eof405
 		}
 	st_case_405:
 		switch data[p] {
-		case 83:
+		case 78:
 			goto st406
-		case 115:
+		case 110:
 			goto st406
 		}
-		goto tr418
+		goto tr398
 	st406:
 		if p++; p == pe {
 			goto _test_eof406
 		}
 	st_case_406:
 		switch data[p] {
-		case 80:
+		case 67:
 			goto st407
-		case 112:
+		case 99:
 			goto st407
 		}
-		goto tr418
+		goto tr398
 	st407:
 		if p++; p == pe {
 			goto _test_eof407
@@ -12227,19 +11672,19 @@ addrp=lastAddr(&msg.To)
 		case 111:
 			goto st408
 		}
-		goto tr418
+		goto tr398
 	st408:
 		if p++; p == pe {
 			goto _test_eof408
 		}
 	st_case_408:
 		switch data[p] {
-		case 83:
+		case 68:
 			goto st409
-		case 115:
+		case 100:
 			goto st409
 		}
-		goto tr418
+		goto tr398
 	st409:
 		if p++; p == pe {
 			goto _test_eof409
@@ -12251,350 +11696,228 @@ addrp=lastAddr(&msg.To)
 		case 105:
 			goto st410
 		}
-		goto tr418
+		goto tr398
 	st410:
 		if p++; p == pe {
 			goto _test_eof410
 		}
 	st_case_410:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st411
-		case 116:
+		case 110:
 			goto st411
 		}
-		goto tr418
+		goto tr398
 	st411:
 		if p++; p == pe {
 			goto _test_eof411
 		}
 	st_case_411:
 		switch data[p] {
-		case 73:
+		case 71:
 			goto st412
-		case 105:
+		case 103:
 			goto st412
 		}
-		goto tr418
+		goto tr398
 	st412:
 		if p++; p == pe {
 			goto _test_eof412
 		}
 	st_case_412:
 		switch data[p] {
-		case 79:
-			goto st413
-		case 111:
-			goto st413
+		case 9:
+			goto tr588
+		case 32:
+			goto tr588
+		case 58:
+			goto tr589
 		}
-		goto tr418
+		goto tr398
 	st413:
 		if p++; p == pe {
 			goto _test_eof413
 		}
 	st_case_413:
 		switch data[p] {
-		case 78:
+		case 65:
 			goto st414
-		case 110:
+		case 69:
+			goto st421
+		case 97:
 			goto st414
+		case 101:
+			goto st421
 		}
-		goto tr418
+		goto tr398
 	st414:
 		if p++; p == pe {
 			goto _test_eof414
 		}
 	st_case_414:
 		switch data[p] {
-		case 9:
-			goto tr599
-		case 32:
-			goto tr599
-		case 58:
-			goto tr600
+		case 78:
+			goto st415
+		case 110:
+			goto st415
 		}
-		goto tr418
+		goto tr398
 	st415:
 		if p++; p == pe {
 			goto _test_eof415
 		}
 	st_case_415:
 		switch data[p] {
-		case 78:
+		case 71:
 			goto st416
-		case 110:
+		case 103:
 			goto st416
 		}
-		goto tr418
+		goto tr398
 	st416:
 		if p++; p == pe {
 			goto _test_eof416
 		}
 	st_case_416:
 		switch data[p] {
-		case 67:
+		case 85:
 			goto st417
-		case 99:
+		case 117:
 			goto st417
 		}
-		goto tr418
+		goto tr398
 	st417:
 		if p++; p == pe {
 			goto _test_eof417
 		}
 	st_case_417:
 		switch data[p] {
-		case 79:
+		case 65:
 			goto st418
-		case 111:
+		case 97:
 			goto st418
 		}
-		goto tr418
+		goto tr398
 	st418:
 		if p++; p == pe {
 			goto _test_eof418
 		}
 	st_case_418:
 		switch data[p] {
-		case 68:
+		case 71:
 			goto st419
-		case 100:
+		case 103:
 			goto st419
 		}
-		goto tr418
+		goto tr398
 	st419:
 		if p++; p == pe {
 			goto _test_eof419
 		}
 	st_case_419:
 		switch data[p] {
-		case 73:
+		case 69:
 			goto st420
-		case 105:
+		case 101:
 			goto st420
 		}
-		goto tr418
+		goto tr398
 	st420:
 		if p++; p == pe {
 			goto _test_eof420
 		}
 	st_case_420:
 		switch data[p] {
-		case 78:
-			goto st421
-		case 110:
-			goto st421
+		case 9:
+			goto tr598
+		case 32:
+			goto tr598
+		case 58:
+			goto tr599
 		}
-		goto tr418
+		goto tr398
 	st421:
 		if p++; p == pe {
 			goto _test_eof421
 		}
 	st_case_421:
 		switch data[p] {
-		case 71:
+		case 78:
 			goto st422
-		case 103:
+		case 110:
 			goto st422
 		}
-		goto tr418
+		goto tr398
 	st422:
 		if p++; p == pe {
 			goto _test_eof422
 		}
 	st_case_422:
 		switch data[p] {
-		case 9:
-			goto tr608
-		case 32:
-			goto tr608
-		case 58:
-			goto tr609
+		case 71:
+			goto st423
+		case 103:
+			goto st423
 		}
-		goto tr418
+		goto tr398
 	st423:
 		if p++; p == pe {
 			goto _test_eof423
 		}
 	st_case_423:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st424
-		case 69:
-			goto st431
-		case 97:
+		case 116:
 			goto st424
-		case 101:
-			goto st431
 		}
-		goto tr418
+		goto tr398
 	st424:
 		if p++; p == pe {
 			goto _test_eof424
 		}
 	st_case_424:
 		switch data[p] {
-		case 78:
+		case 72:
 			goto st425
-		case 110:
+		case 104:
 			goto st425
 		}
-		goto tr418
+		goto tr398
 	st425:
 		if p++; p == pe {
 			goto _test_eof425
 		}
 	st_case_425:
 		switch data[p] {
-		case 71:
+		case 9:
 			goto st426
-		case 103:
+		case 32:
 			goto st426
+		case 58:
+			goto st427
 		}
-		goto tr418
+		goto tr398
 	st426:
 		if p++; p == pe {
 			goto _test_eof426
 		}
 	st_case_426:
-		switch data[p] {
-		case 85:
-			goto st427
-		case 117:
-			goto st427
-		}
-		goto tr418
-	st427:
-		if p++; p == pe {
-			goto _test_eof427
-		}
-	st_case_427:
-		switch data[p] {
-		case 65:
-			goto st428
-		case 97:
-			goto st428
-		}
-		goto tr418
-	st428:
-		if p++; p == pe {
-			goto _test_eof428
-		}
-	st_case_428:
-		switch data[p] {
-		case 71:
-			goto st429
-		case 103:
-			goto st429
-		}
-		goto tr418
-	st429:
-		if p++; p == pe {
-			goto _test_eof429
-		}
-	st_case_429:
-		switch data[p] {
-		case 69:
-			goto st430
-		case 101:
-			goto st430
-		}
-		goto tr418
-	st430:
-		if p++; p == pe {
-			goto _test_eof430
-		}
-	st_case_430:
-		switch data[p] {
-		case 9:
-			goto tr618
-		case 32:
-			goto tr618
-		case 58:
-			goto tr619
-		}
-		goto tr418
-	st431:
-		if p++; p == pe {
-			goto _test_eof431
-		}
-	st_case_431:
-		switch data[p] {
-		case 78:
-			goto st432
-		case 110:
-			goto st432
-		}
-		goto tr418
-	st432:
-		if p++; p == pe {
-			goto _test_eof432
-		}
-	st_case_432:
-		switch data[p] {
-		case 71:
-			goto st433
-		case 103:
-			goto st433
-		}
-		goto tr418
-	st433:
-		if p++; p == pe {
-			goto _test_eof433
-		}
-	st_case_433:
-		switch data[p] {
-		case 84:
-			goto st434
-		case 116:
-			goto st434
-		}
-		goto tr418
-	st434:
-		if p++; p == pe {
-			goto _test_eof434
-		}
-	st_case_434:
-		switch data[p] {
-		case 72:
-			goto st435
-		case 104:
-			goto st435
-		}
-		goto tr418
-	st435:
-		if p++; p == pe {
-			goto _test_eof435
-		}
-	st_case_435:
-		switch data[p] {
-		case 9:
-			goto st436
-		case 32:
-			goto st436
-		case 58:
-			goto st437
-		}
-		goto tr418
-	st436:
-		if p++; p == pe {
-			goto _test_eof436
-		}
-	st_case_436:
 		switch data[p] {
 		case 9:
-			goto st436
+			goto st426
 		case 32:
-			goto st436
+			goto st426
 		case 58:
-			goto st437
+			goto st427
 		}
 		goto st0
-	st437:
+	st427:
 		if p++; p == pe {
-			goto _test_eof437
+			goto _test_eof427
 		}
-	st_case_437:
+	st_case_427:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12604,36 +11927,36 @@ addrp=lastAddr(&msg.To)
 		}
 		switch _widec {
 		case 9:
-			goto st437
+			goto st427
 		case 32:
-			goto st437
+			goto st427
 		case 525:
-			goto st439
+			goto st429
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr625
+			goto tr605
 		}
 		goto st0
-tr625:
+tr605:
 //line sip.rl:493
 clen=0
 //line sip.rl:224
 
 	clen = clen * 10 + (int(data[p]) - 0x30)
 
-	goto st438
-tr627:
+	goto st428
+tr607:
 //line sip.rl:224
 
 	clen = clen * 10 + (int(data[p]) - 0x30)
 
-	goto st438
-	st438:
+	goto st428
+	st428:
 		if p++; p == pe {
-			goto _test_eof438
+			goto _test_eof428
 		}
-	st_case_438:
-//line msg_parse.go:12628
+	st_case_428:
+//line msg_parse.go:11951
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12642,155 +11965,155 @@ tr627:
 			}
 		}
 		if _widec == 269 {
-			goto st382
+			goto st372
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr627
+			goto tr607
 		}
 		goto st0
-	st439:
+	st429:
 		if p++; p == pe {
-			goto _test_eof439
+			goto _test_eof429
 		}
-	st_case_439:
+	st_case_429:
 		if data[p] == 10 {
-			goto st440
+			goto st430
 		}
 		goto st0
-	st440:
+	st430:
 		if p++; p == pe {
-			goto _test_eof440
+			goto _test_eof430
 		}
-	st_case_440:
+	st_case_430:
 		switch data[p] {
 		case 9:
-			goto st441
+			goto st431
 		case 32:
-			goto st441
+			goto st431
 		}
 		goto st0
-	st441:
+	st431:
 		if p++; p == pe {
-			goto _test_eof441
+			goto _test_eof431
 		}
-	st_case_441:
+	st_case_431:
 		switch data[p] {
 		case 9:
-			goto st441
+			goto st431
 		case 32:
-			goto st441
+			goto st431
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr625
+			goto tr605
 		}
 		goto st0
-	st442:
+	st432:
 		if p++; p == pe {
-			goto _test_eof442
+			goto _test_eof432
 		}
-	st_case_442:
+	st_case_432:
 		switch data[p] {
 		case 89:
-			goto st443
+			goto st433
 		case 121:
-			goto st443
+			goto st433
 		}
-		goto tr418
-	st443:
+		goto tr398
+	st433:
 		if p++; p == pe {
-			goto _test_eof443
+			goto _test_eof433
 		}
-	st_case_443:
+	st_case_433:
 		switch data[p] {
 		case 80:
-			goto st444
+			goto st434
 		case 112:
-			goto st444
+			goto st434
 		}
-		goto tr418
-	st444:
+		goto tr398
+	st434:
 		if p++; p == pe {
-			goto _test_eof444
+			goto _test_eof434
 		}
-	st_case_444:
+	st_case_434:
 		switch data[p] {
 		case 69:
-			goto st445
+			goto st435
 		case 101:
-			goto st445
+			goto st435
 		}
-		goto tr418
-	st445:
+		goto tr398
+	st435:
 		if p++; p == pe {
-			goto _test_eof445
+			goto _test_eof435
 		}
-	st_case_445:
+	st_case_435:
 		switch data[p] {
 		case 9:
-			goto st366
+			goto st356
 		case 32:
-			goto st366
+			goto st356
 		case 58:
-			goto st367
+			goto st357
 		}
-		goto tr418
-	st446:
+		goto tr398
+	st436:
 		if p++; p == pe {
-			goto _test_eof446
+			goto _test_eof436
 		}
-	st_case_446:
+	st_case_436:
 		switch data[p] {
 		case 69:
-			goto st447
+			goto st437
 		case 101:
-			goto st447
+			goto st437
 		}
-		goto tr418
-	st447:
+		goto tr398
+	st437:
 		if p++; p == pe {
-			goto _test_eof447
+			goto _test_eof437
 		}
-	st_case_447:
+	st_case_437:
 		switch data[p] {
 		case 81:
-			goto st448
+			goto st438
 		case 113:
-			goto st448
+			goto st438
 		}
-		goto tr418
-	st448:
+		goto tr398
+	st438:
 		if p++; p == pe {
-			goto _test_eof448
+			goto _test_eof438
 		}
-	st_case_448:
+	st_case_438:
 		switch data[p] {
 		case 9:
-			goto st449
+			goto st439
 		case 32:
-			goto st449
+			goto st439
 		case 58:
-			goto st450
+			goto st440
 		}
-		goto tr418
-	st449:
+		goto tr398
+	st439:
 		if p++; p == pe {
-			goto _test_eof449
+			goto _test_eof439
 		}
-	st_case_449:
+	st_case_439:
 		switch data[p] {
 		case 9:
-			goto st449
+			goto st439
 		case 32:
-			goto st449
+			goto st439
 		case 58:
-			goto st450
+			goto st440
 		}
 		goto st0
-	st450:
+	st440:
 		if p++; p == pe {
-			goto _test_eof450
+			goto _test_eof440
 		}
-	st_case_450:
+	st_case_440:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12800,28 +12123,28 @@ tr627:
 		}
 		switch _widec {
 		case 9:
-			goto st450
+			goto st440
 		case 32:
-			goto st450
+			goto st440
 		case 525:
-			goto st457
+			goto st447
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr638
+			goto tr618
 		}
 		goto st0
-tr638:
+tr618:
 //line sip.rl:232
 
 	msg.CSeq = msg.CSeq * 10 + (int(data[p]) - 0x30)
 
-	goto st451
-	st451:
+	goto st441
+	st441:
 		if p++; p == pe {
-			goto _test_eof451
+			goto _test_eof441
 		}
-	st_case_451:
-//line msg_parse.go:12816
+	st_case_441:
+//line msg_parse.go:12139
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12831,21 +12154,21 @@ tr638:
 		}
 		switch _widec {
 		case 9:
-			goto st452
+			goto st442
 		case 32:
-			goto st452
+			goto st442
 		case 525:
-			goto st454
+			goto st444
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr638
+			goto tr618
 		}
 		goto st0
-	st452:
+	st442:
 		if p++; p == pe {
-			goto _test_eof452
+			goto _test_eof442
 		}
-	st_case_452:
+	st_case_442:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12855,55 +12178,55 @@ tr638:
 		}
 		switch _widec {
 		case 9:
-			goto st452
+			goto st442
 		case 32:
-			goto st452
+			goto st442
 		case 33:
-			goto tr642
+			goto tr622
 		case 37:
-			goto tr642
+			goto tr622
 		case 39:
-			goto tr642
+			goto tr622
 		case 126:
-			goto tr642
+			goto tr622
 		case 525:
-			goto st454
+			goto st444
 		}
 		switch {
 		case _widec < 48:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto tr642
+					goto tr622
 				}
 			case _widec >= 42:
-				goto tr642
+				goto tr622
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr642
+					goto tr622
 				}
 			case _widec >= 65:
-				goto tr642
+				goto tr622
 			}
 		default:
-			goto tr642
+			goto tr622
 		}
 		goto st0
-tr642:
+tr622:
 //line sip.rl:80
 
 	mark = p
 
-	goto st453
-	st453:
+	goto st443
+	st443:
 		if p++; p == pe {
-			goto _test_eof453
+			goto _test_eof443
 		}
-	st_case_453:
-//line msg_parse.go:12898
+	st_case_443:
+//line msg_parse.go:12221
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12913,174 +12236,307 @@ tr642:
 		}
 		switch _widec {
 		case 33:
-			goto st453
+			goto st443
 		case 37:
-			goto st453
+			goto st443
 		case 39:
-			goto st453
+			goto st443
 		case 126:
-			goto st453
+			goto st443
 		case 269:
-			goto tr644
+			goto tr624
 		}
 		switch {
 		case _widec < 48:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto st453
+					goto st443
 				}
 			case _widec >= 42:
-				goto st453
+				goto st443
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto st453
+					goto st443
 				}
 			case _widec >= 65:
-				goto st453
+				goto st443
 			}
 		default:
-			goto st453
+			goto st443
 		}
 		goto st0
-	st454:
+	st444:
 		if p++; p == pe {
-			goto _test_eof454
+			goto _test_eof444
 		}
-	st_case_454:
+	st_case_444:
 		if data[p] == 10 {
-			goto st455
+			goto st445
 		}
 		goto st0
-	st455:
+	st445:
 		if p++; p == pe {
-			goto _test_eof455
+			goto _test_eof445
 		}
-	st_case_455:
+	st_case_445:
 		switch data[p] {
 		case 9:
-			goto st456
+			goto st446
 		case 32:
-			goto st456
+			goto st446
 		}
 		goto st0
-	st456:
+	st446:
 		if p++; p == pe {
-			goto _test_eof456
+			goto _test_eof446
 		}
-	st_case_456:
+	st_case_446:
 		switch data[p] {
 		case 9:
-			goto st456
+			goto st446
 		case 32:
-			goto st456
+			goto st446
 		case 33:
-			goto tr642
+			goto tr622
 		case 37:
-			goto tr642
+			goto tr622
 		case 39:
-			goto tr642
+			goto tr622
 		case 126:
-			goto tr642
+			goto tr622
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr642
+					goto tr622
 				}
 			case data[p] >= 42:
-				goto tr642
+				goto tr622
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr642
+					goto tr622
 				}
 			case data[p] >= 65:
-				goto tr642
+				goto tr622
 			}
 		default:
-			goto tr642
+			goto tr622
+		}
+		goto st0
+	st447:
+		if p++; p == pe {
+			goto _test_eof447
+		}
+	st_case_447:
+		if data[p] == 10 {
+			goto st448
+		}
+		goto st0
+	st448:
+		if p++; p == pe {
+			goto _test_eof448
+		}
+	st_case_448:
+		switch data[p] {
+		case 9:
+			goto st449
+		case 32:
+			goto st449
+		}
+		goto st0
+	st449:
+		if p++; p == pe {
+			goto _test_eof449
+		}
+	st_case_449:
+		switch data[p] {
+		case 9:
+			goto st449
+		case 32:
+			goto st449
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr618
+		}
+		goto st0
+	st450:
+		if p++; p == pe {
+			goto _test_eof450
+		}
+	st_case_450:
+		switch data[p] {
+		case 65:
+			goto st451
+		case 97:
+			goto st451
+		}
+		goto tr398
+	st451:
+		if p++; p == pe {
+			goto _test_eof451
+		}
+	st_case_451:
+		switch data[p] {
+		case 84:
+			goto st452
+		case 116:
+			goto st452
+		}
+		goto tr398
+	st452:
+		if p++; p == pe {
+			goto _test_eof452
+		}
+	st_case_452:
+		switch data[p] {
+		case 69:
+			goto st453
+		case 101:
+			goto st453
+		}
+		goto tr398
+	st453:
+		if p++; p == pe {
+			goto _test_eof453
+		}
+	st_case_453:
+		switch data[p] {
+		case 9:
+			goto tr632
+		case 32:
+			goto tr632
+		case 58:
+			goto tr633
+		}
+		goto tr398
+	st454:
+		if p++; p == pe {
+			goto _test_eof454
+		}
+	st_case_454:
+		switch data[p] {
+		case 9:
+			goto tr588
+		case 32:
+			goto tr588
+		case 58:
+			goto tr589
+		case 82:
+			goto st455
+		case 86:
+			goto st464
+		case 88:
+			goto st468
+		case 114:
+			goto st455
+		case 118:
+			goto st464
+		case 120:
+			goto st468
+		}
+		goto tr398
+	st455:
+		if p++; p == pe {
+			goto _test_eof455
 		}
-		goto st0
+	st_case_455:
+		switch data[p] {
+		case 82:
+			goto st456
+		case 114:
+			goto st456
+		}
+		goto tr398
+	st456:
+		if p++; p == pe {
+			goto _test_eof456
+		}
+	st_case_456:
+		switch data[p] {
+		case 79:
+			goto st457
+		case 111:
+			goto st457
+		}
+		goto tr398
 	st457:
 		if p++; p == pe {
 			goto _test_eof457
 		}
 	st_case_457:
-		if data[p] == 10 {
+		switch data[p] {
+		case 82:
+			goto st458
+		case 114:
 			goto st458
 		}
-		goto st0
+		goto tr398
 	st458:
 		if p++; p == pe {
 			goto _test_eof458
 		}
 	st_case_458:
-		switch data[p] {
-		case 9:
-			goto st459
-		case 32:
+		if data[p] == 45 {
 			goto st459
 		}
-		goto st0
+		goto tr398
 	st459:
 		if p++; p == pe {
 			goto _test_eof459
 		}
 	st_case_459:
 		switch data[p] {
-		case 9:
-			goto st459
-		case 32:
-			goto st459
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr638
+		case 73:
+			goto st460
+		case 105:
+			goto st460
 		}
-		goto st0
+		goto tr398
 	st460:
 		if p++; p == pe {
 			goto _test_eof460
 		}
 	st_case_460:
 		switch data[p] {
-		case 65:
+		case 78:
 			goto st461
-		case 97:
+		case 110:
 			goto st461
 		}
-		goto tr418
+		goto tr398
 	st461:
 		if p++; p == pe {
 			goto _test_eof461
 		}
 	st_case_461:
 		switch data[p] {
-		case 84:
+		case 70:
 			goto st462
-		case 116:
+		case 102:
 			goto st462
 		}
-		goto tr418
+		goto tr398
 	st462:
 		if p++; p == pe {
 			goto _test_eof462
 		}
 	st_case_462:
 		switch data[p] {
-		case 69:
+		case 79:
 			goto st463
-		case 101:
+		case 111:
 			goto st463
 		}
-		goto tr418
+		goto tr398
 	st463:
 		if p++; p == pe {
 			goto _test_eof463
@@ -13088,84 +12544,75 @@ tr642:
 	st_case_463:
 		switch data[p] {
 		case 9:
-			goto tr652
+			goto tr645
 		case 32:
-			goto tr652
+			goto tr645
 		case 58:
-			goto tr653
+			goto tr646
 		}
-		goto tr418
+		goto tr398
 	st464:
 		if p++; p == pe {
 			goto _test_eof464
 		}
 	st_case_464:
 		switch data[p] {
-		case 9:
-			goto tr608
-		case 32:
-			goto tr608
-		case 58:
-			goto tr609
-		case 82:
+		case 69:
 			goto st465
-		case 86:
-			goto st474
-		case 88:
-			goto st478
-		case 114:
+		case 101:
 			goto st465
-		case 118:
-			goto st474
-		case 120:
-			goto st478
 		}
-		goto tr418
+		goto tr398
 	st465:
 		if p++; p == pe {
 			goto _test_eof465
 		}
 	st_case_465:
 		switch data[p] {
-		case 82:
+		case 78:
 			goto st466
-		case 114:
+		case 110:
 			goto st466
 		}
-		goto tr418
+		goto tr398
 	st466:
 		if p++; p == pe {
 			goto _test_eof466
 		}
 	st_case_466:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st467
-		case 111:
+		case 116:
 			goto st467
 		}
-		goto tr418
+		goto tr398
 	st467:
 		if p++; p == pe {
 			goto _test_eof467
 		}
 	st_case_467:
 		switch data[p] {
-		case 82:
-			goto st468
-		case 114:
-			goto st468
+		case 9:
+			goto tr650
+		case 32:
+			goto tr650
+		case 58:
+			goto tr651
 		}
-		goto tr418
+		goto tr398
 	st468:
 		if p++; p == pe {
 			goto _test_eof468
 		}
 	st_case_468:
-		if data[p] == 45 {
+		switch data[p] {
+		case 80:
+			goto st469
+		case 112:
 			goto st469
 		}
-		goto tr418
+		goto tr398
 	st469:
 		if p++; p == pe {
 			goto _test_eof469
@@ -13177,43 +12624,43 @@ tr642:
 		case 105:
 			goto st470
 		}
-		goto tr418
+		goto tr398
 	st470:
 		if p++; p == pe {
 			goto _test_eof470
 		}
 	st_case_470:
 		switch data[p] {
-		case 78:
+		case 82:
 			goto st471
-		case 110:
+		case 114:
 			goto st471
 		}
-		goto tr418
+		goto tr398
 	st471:
 		if p++; p == pe {
 			goto _test_eof471
 		}
 	st_case_471:
 		switch data[p] {
-		case 70:
+		case 69:
 			goto st472
-		case 102:
+		case 101:
 			goto st472
 		}
-		goto tr418
+		goto tr398
 	st472:
 		if p++; p == pe {
 			goto _test_eof472
 		}
 	st_case_472:
 		switch data[p] {
-		case 79:
+		case 83:
 			goto st473
-		case 111:
+		case 115:
 			goto st473
 		}
-		goto tr418
+		goto tr398
 	st473:
 		if p++; p == pe {
 			goto _test_eof473
@@ -13221,123 +12668,163 @@ tr642:
 	st_case_473:
 		switch data[p] {
 		case 9:
-			goto tr665
+			goto st474
 		case 32:
-			goto tr665
+			goto st474
 		case 58:
-			goto tr666
+			goto st475
 		}
-		goto tr418
+		goto tr398
 	st474:
 		if p++; p == pe {
 			goto _test_eof474
 		}
 	st_case_474:
 		switch data[p] {
-		case 69:
-			goto st475
-		case 101:
+		case 9:
+			goto st474
+		case 32:
+			goto st474
+		case 58:
 			goto st475
 		}
-		goto tr418
+		goto st0
 	st475:
 		if p++; p == pe {
 			goto _test_eof475
 		}
 	st_case_475:
-		switch data[p] {
-		case 78:
-			goto st476
-		case 110:
-			goto st476
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		switch _widec {
+		case 9:
+			goto st475
+		case 32:
+			goto st475
+		case 525:
+			goto st477
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr659
 		}
-		goto tr418
+		goto st0
+tr659:
+//line sip.rl:495
+msg.Expires=0
+//line sip.rl:240
+
+	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
+
+	goto st476
+tr661:
+//line sip.rl:240
+
+	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
+
+	goto st476
 	st476:
 		if p++; p == pe {
 			goto _test_eof476
 		}
 	st_case_476:
-		switch data[p] {
-		case 84:
-			goto st477
-		case 116:
-			goto st477
+//line msg_parse.go:12727
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		if _widec == 269 {
+			goto st372
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr661
 		}
-		goto tr418
+		goto st0
 	st477:
 		if p++; p == pe {
 			goto _test_eof477
 		}
 	st_case_477:
-		switch data[p] {
-		case 9:
-			goto tr670
-		case 32:
-			goto tr670
-		case 58:
-			goto tr671
+		if data[p] == 10 {
+			goto st478
 		}
-		goto tr418
+		goto st0
 	st478:
 		if p++; p == pe {
 			goto _test_eof478
 		}
 	st_case_478:
 		switch data[p] {
-		case 80:
+		case 9:
 			goto st479
-		case 112:
+		case 32:
 			goto st479
 		}
-		goto tr418
+		goto st0
 	st479:
 		if p++; p == pe {
 			goto _test_eof479
 		}
 	st_case_479:
 		switch data[p] {
-		case 73:
-			goto st480
-		case 105:
-			goto st480
+		case 9:
+			goto st479
+		case 32:
+			goto st479
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr659
 		}
-		goto tr418
+		goto st0
 	st480:
 		if p++; p == pe {
 			goto _test_eof480
 		}
 	st_case_480:
 		switch data[p] {
+		case 9:
+			goto tr664
+		case 32:
+			goto tr664
+		case 58:
+			goto tr665
 		case 82:
 			goto st481
 		case 114:
 			goto st481
 		}
-		goto tr418
+		goto tr398
 	st481:
 		if p++; p == pe {
 			goto _test_eof481
 		}
 	st_case_481:
 		switch data[p] {
-		case 69:
+		case 79:
 			goto st482
-		case 101:
+		case 111:
 			goto st482
 		}
-		goto tr418
+		goto tr398
 	st482:
 		if p++; p == pe {
 			goto _test_eof482
 		}
 	st_case_482:
 		switch data[p] {
-		case 83:
+		case 77:
 			goto st483
-		case 115:
+		case 109:
 			goto st483
 		}
-		goto tr418
+		goto tr398
 	st483:
 		if p++; p == pe {
 			goto _test_eof483
@@ -13345,13 +12832,13 @@ tr642:
 	st_case_483:
 		switch data[p] {
 		case 9:
-			goto st484
+			goto tr664
 		case 32:
-			goto st484
+			goto tr664
 		case 58:
-			goto st485
+			goto tr665
 		}
-		goto tr418
+		goto tr398
 	st484:
 		if p++; p == pe {
 			goto _test_eof484
@@ -13359,163 +12846,119 @@ tr642:
 	st_case_484:
 		switch data[p] {
 		case 9:
-			goto st484
+			goto st367
 		case 32:
-			goto st484
+			goto st367
 		case 58:
+			goto st368
+		case 78:
+			goto st485
+		case 110:
 			goto st485
 		}
-		goto st0
+		goto tr398
 	st485:
 		if p++; p == pe {
 			goto _test_eof485
 		}
-	st_case_485:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st485
-		case 32:
-			goto st485
-		case 525:
-			goto st487
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr679
-		}
-		goto st0
-tr679:
-//line sip.rl:495
-msg.Expires=0
-//line sip.rl:240
-
-	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
-
-	goto st486
-tr681:
-//line sip.rl:240
-
-	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
-
-	goto st486
-	st486:
-		if p++; p == pe {
-			goto _test_eof486
-		}
-	st_case_486:
-//line msg_parse.go:13404
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
+	st_case_485:
+		if data[p] == 45 {
+			goto st486
 		}
-		if _widec == 269 {
-			goto st382
+		goto tr398
+	st486:
+		if p++; p == pe {
+			goto _test_eof486
 		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr681
+	st_case_486:
+		switch data[p] {
+		case 82:
+			goto st487
+		case 114:
+			goto st487
 		}
-		goto st0
+		goto tr398
 	st487:
 		if p++; p == pe {
 			goto _test_eof487
 		}
 	st_case_487:
-		if data[p] == 10 {
+		switch data[p] {
+		case 69:
+			goto st488
+		case 101:
 			goto st488
 		}
-		goto st0
+		goto tr398
 	st488:
 		if p++; p == pe {
 			goto _test_eof488
 		}
 	st_case_488:
 		switch data[p] {
-		case 9:
+		case 80:
 			goto st489
-		case 32:
+		case 112:
 			goto st489
 		}
-		goto st0
+		goto tr398
 	st489:
 		if p++; p == pe {
 			goto _test_eof489
 		}
 	st_case_489:
 		switch data[p] {
-		case 9:
-			goto st489
-		case 32:
-			goto st489
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr679
+		case 76:
+			goto st490
+		case 108:
+			goto st490
 		}
-		goto st0
+		goto tr398
 	st490:
 		if p++; p == pe {
 			goto _test_eof490
 		}
 	st_case_490:
 		switch data[p] {
-		case 9:
-			goto tr684
-		case 32:
-			goto tr684
-		case 58:
-			goto tr685
-		case 82:
+		case 89:
 			goto st491
-		case 114:
+		case 121:
 			goto st491
 		}
-		goto tr418
+		goto tr398
 	st491:
 		if p++; p == pe {
 			goto _test_eof491
 		}
 	st_case_491:
-		switch data[p] {
-		case 79:
-			goto st492
-		case 111:
+		if data[p] == 45 {
 			goto st492
 		}
-		goto tr418
+		goto tr398
 	st492:
 		if p++; p == pe {
 			goto _test_eof492
 		}
 	st_case_492:
 		switch data[p] {
-		case 77:
+		case 84:
 			goto st493
-		case 109:
+		case 116:
 			goto st493
 		}
-		goto tr418
+		goto tr398
 	st493:
 		if p++; p == pe {
 			goto _test_eof493
 		}
 	st_case_493:
 		switch data[p] {
-		case 9:
-			goto tr684
-		case 32:
-			goto tr684
-		case 58:
-			goto tr685
+		case 79:
+			goto st494
+		case 111:
+			goto st494
 		}
-		goto tr418
+		goto tr398
 	st494:
 		if p++; p == pe {
 			goto _test_eof494
@@ -13523,529 +12966,530 @@ tr681:
 	st_case_494:
 		switch data[p] {
 		case 9:
-			goto st377
+			goto tr679
 		case 32:
-			goto st377
+			goto tr679
 		case 58:
-			goto st378
-		case 78:
-			goto st495
-		case 110:
-			goto st495
+			goto tr680
 		}
-		goto tr418
+		goto tr398
 	st495:
 		if p++; p == pe {
 			goto _test_eof495
 		}
 	st_case_495:
-		if data[p] == 45 {
-			goto st496
+		switch data[p] {
+		case 9:
+			goto tr681
+		case 32:
+			goto tr681
+		case 58:
+			goto tr682
 		}
-		goto tr418
+		goto tr398
 	st496:
 		if p++; p == pe {
 			goto _test_eof496
 		}
 	st_case_496:
 		switch data[p] {
-		case 82:
+		case 9:
+			goto tr554
+		case 32:
+			goto tr554
+		case 58:
+			goto tr555
+		case 65:
 			goto st497
-		case 114:
+		case 73:
+			goto st514
+		case 97:
 			goto st497
+		case 105:
+			goto st514
 		}
-		goto tr418
+		goto tr398
 	st497:
 		if p++; p == pe {
 			goto _test_eof497
 		}
 	st_case_497:
 		switch data[p] {
-		case 69:
+		case 88:
 			goto st498
-		case 101:
+		case 120:
 			goto st498
 		}
-		goto tr418
+		goto tr398
 	st498:
 		if p++; p == pe {
 			goto _test_eof498
 		}
 	st_case_498:
-		switch data[p] {
-		case 80:
-			goto st499
-		case 112:
+		if data[p] == 45 {
 			goto st499
 		}
-		goto tr418
+		goto tr398
 	st499:
 		if p++; p == pe {
 			goto _test_eof499
 		}
 	st_case_499:
 		switch data[p] {
-		case 76:
+		case 70:
 			goto st500
-		case 108:
+		case 102:
 			goto st500
 		}
-		goto tr418
+		goto tr398
 	st500:
 		if p++; p == pe {
 			goto _test_eof500
 		}
 	st_case_500:
 		switch data[p] {
-		case 89:
+		case 79:
 			goto st501
-		case 121:
+		case 111:
 			goto st501
 		}
-		goto tr418
+		goto tr398
 	st501:
 		if p++; p == pe {
 			goto _test_eof501
 		}
 	st_case_501:
-		if data[p] == 45 {
+		switch data[p] {
+		case 82:
+			goto st502
+		case 114:
 			goto st502
 		}
-		goto tr418
+		goto tr398
 	st502:
 		if p++; p == pe {
 			goto _test_eof502
 		}
 	st_case_502:
 		switch data[p] {
-		case 84:
+		case 87:
 			goto st503
-		case 116:
+		case 119:
 			goto st503
 		}
-		goto tr418
+		goto tr398
 	st503:
 		if p++; p == pe {
 			goto _test_eof503
 		}
 	st_case_503:
 		switch data[p] {
-		case 79:
+		case 65:
 			goto st504
-		case 111:
+		case 97:
 			goto st504
 		}
-		goto tr418
+		goto tr398
 	st504:
 		if p++; p == pe {
 			goto _test_eof504
 		}
 	st_case_504:
 		switch data[p] {
-		case 9:
-			goto tr699
-		case 32:
-			goto tr699
-		case 58:
-			goto tr700
+		case 82:
+			goto st505
+		case 114:
+			goto st505
 		}
-		goto tr418
+		goto tr398
 	st505:
 		if p++; p == pe {
 			goto _test_eof505
 		}
 	st_case_505:
 		switch data[p] {
-		case 9:
-			goto tr701
-		case 32:
-			goto tr701
-		case 58:
-			goto tr702
+		case 68:
+			goto st506
+		case 100:
+			goto st506
 		}
-		goto tr418
+		goto tr398
 	st506:
 		if p++; p == pe {
 			goto _test_eof506
 		}
 	st_case_506:
 		switch data[p] {
-		case 9:
-			goto tr574
-		case 32:
-			goto tr574
-		case 58:
-			goto tr575
-		case 65:
+		case 83:
 			goto st507
-		case 73:
-			goto st524
-		case 97:
+		case 115:
 			goto st507
-		case 105:
-			goto st524
 		}
-		goto tr418
+		goto tr398
 	st507:
 		if p++; p == pe {
 			goto _test_eof507
 		}
 	st_case_507:
 		switch data[p] {
-		case 88:
+		case 9:
 			goto st508
-		case 120:
+		case 32:
 			goto st508
+		case 58:
+			goto st509
 		}
-		goto tr418
+		goto tr398
 	st508:
 		if p++; p == pe {
 			goto _test_eof508
 		}
 	st_case_508:
-		if data[p] == 45 {
+		switch data[p] {
+		case 9:
+			goto st508
+		case 32:
+			goto st508
+		case 58:
 			goto st509
 		}
-		goto tr418
+		goto st0
 	st509:
 		if p++; p == pe {
 			goto _test_eof509
 		}
 	st_case_509:
-		switch data[p] {
-		case 70:
-			goto st510
-		case 102:
-			goto st510
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		switch _widec {
+		case 9:
+			goto st509
+		case 32:
+			goto st509
+		case 525:
+			goto st511
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr697
 		}
-		goto tr418
+		goto st0
+tr697:
+//line sip.rl:496
+msg.MaxForwards=0
+//line sip.rl:244
+
+	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
+
+	goto st510
+tr699:
+//line sip.rl:244
+
+	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
+
+	goto st510
 	st510:
 		if p++; p == pe {
 			goto _test_eof510
 		}
 	st_case_510:
-		switch data[p] {
-		case 79:
-			goto st511
-		case 111:
-			goto st511
+//line msg_parse.go:13192
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		if _widec == 269 {
+			goto st372
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr699
 		}
-		goto tr418
+		goto st0
 	st511:
 		if p++; p == pe {
 			goto _test_eof511
 		}
 	st_case_511:
-		switch data[p] {
-		case 82:
-			goto st512
-		case 114:
+		if data[p] == 10 {
 			goto st512
 		}
-		goto tr418
+		goto st0
 	st512:
 		if p++; p == pe {
 			goto _test_eof512
 		}
 	st_case_512:
 		switch data[p] {
-		case 87:
+		case 9:
 			goto st513
-		case 119:
+		case 32:
 			goto st513
 		}
-		goto tr418
+		goto st0
 	st513:
 		if p++; p == pe {
 			goto _test_eof513
 		}
 	st_case_513:
 		switch data[p] {
-		case 65:
-			goto st514
-		case 97:
-			goto st514
+		case 9:
+			goto st513
+		case 32:
+			goto st513
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr697
 		}
-		goto tr418
+		goto st0
 	st514:
 		if p++; p == pe {
 			goto _test_eof514
 		}
 	st_case_514:
 		switch data[p] {
-		case 82:
+		case 77:
 			goto st515
-		case 114:
+		case 78:
+			goto st525
+		case 109:
 			goto st515
+		case 110:
+			goto st525
 		}
-		goto tr418
+		goto tr398
 	st515:
 		if p++; p == pe {
 			goto _test_eof515
 		}
 	st_case_515:
 		switch data[p] {
-		case 68:
+		case 69:
 			goto st516
-		case 100:
+		case 101:
 			goto st516
 		}
-		goto tr418
+		goto tr398
 	st516:
 		if p++; p == pe {
 			goto _test_eof516
 		}
 	st_case_516:
-		switch data[p] {
-		case 83:
-			goto st517
-		case 115:
+		if data[p] == 45 {
 			goto st517
 		}
-		goto tr418
+		goto tr398
 	st517:
 		if p++; p == pe {
 			goto _test_eof517
 		}
 	st_case_517:
 		switch data[p] {
-		case 9:
+		case 86:
 			goto st518
-		case 32:
+		case 118:
 			goto st518
-		case 58:
-			goto st519
 		}
-		goto tr418
+		goto tr398
 	st518:
 		if p++; p == pe {
 			goto _test_eof518
 		}
 	st_case_518:
 		switch data[p] {
-		case 9:
-			goto st518
-		case 32:
-			goto st518
-		case 58:
+		case 69:
+			goto st519
+		case 101:
 			goto st519
 		}
-		goto st0
+		goto tr398
 	st519:
 		if p++; p == pe {
 			goto _test_eof519
 		}
 	st_case_519:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st519
-		case 32:
-			goto st519
-		case 525:
-			goto st521
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr717
+		switch data[p] {
+		case 82:
+			goto st520
+		case 114:
+			goto st520
 		}
-		goto st0
-tr717:
-//line sip.rl:496
-msg.MaxForwards=0
-//line sip.rl:244
-
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
-
-	goto st520
-tr719:
-//line sip.rl:244
-
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
-
-	goto st520
+		goto tr398
 	st520:
 		if p++; p == pe {
 			goto _test_eof520
 		}
 	st_case_520:
-//line msg_parse.go:13869
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		if _widec == 269 {
-			goto st382
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr719
+		switch data[p] {
+		case 83:
+			goto st521
+		case 115:
+			goto st521
 		}
-		goto st0
+		goto tr398
 	st521:
 		if p++; p == pe {
 			goto _test_eof521
 		}
 	st_case_521:
-		if data[p] == 10 {
+		switch data[p] {
+		case 73:
+			goto st522
+		case 105:
 			goto st522
 		}
-		goto st0
+		goto tr398
 	st522:
 		if p++; p == pe {
 			goto _test_eof522
 		}
 	st_case_522:
 		switch data[p] {
-		case 9:
+		case 79:
 			goto st523
-		case 32:
+		case 111:
 			goto st523
 		}
-		goto st0
+		goto tr398
 	st523:
 		if p++; p == pe {
 			goto _test_eof523
 		}
 	st_case_523:
 		switch data[p] {
-		case 9:
-			goto st523
-		case 32:
-			goto st523
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr717
+		case 78:
+			goto st524
+		case 110:
+			goto st524
 		}
-		goto st0
+		goto tr398
 	st524:
 		if p++; p == pe {
 			goto _test_eof524
 		}
 	st_case_524:
 		switch data[p] {
-		case 77:
-			goto st525
-		case 78:
-			goto st535
-		case 109:
-			goto st525
-		case 110:
-			goto st535
+		case 9:
+			goto tr713
+		case 32:
+			goto tr713
+		case 58:
+			goto tr714
 		}
-		goto tr418
+		goto tr398
 	st525:
 		if p++; p == pe {
 			goto _test_eof525
 		}
 	st_case_525:
-		switch data[p] {
-		case 69:
-			goto st526
-		case 101:
+		if data[p] == 45 {
 			goto st526
 		}
-		goto tr418
+		goto tr398
 	st526:
 		if p++; p == pe {
 			goto _test_eof526
 		}
 	st_case_526:
-		if data[p] == 45 {
+		switch data[p] {
+		case 69:
+			goto st527
+		case 101:
 			goto st527
 		}
-		goto tr418
+		goto tr398
 	st527:
 		if p++; p == pe {
 			goto _test_eof527
 		}
 	st_case_527:
 		switch data[p] {
-		case 86:
+		case 88:
 			goto st528
-		case 118:
+		case 120:
 			goto st528
 		}
-		goto tr418
+		goto tr398
 	st528:
 		if p++; p == pe {
 			goto _test_eof528
 		}
 	st_case_528:
 		switch data[p] {
-		case 69:
+		case 80:
 			goto st529
-		case 101:
+		case 112:
 			goto st529
 		}
-		goto tr418
+		goto tr398
 	st529:
 		if p++; p == pe {
 			goto _test_eof529
 		}
 	st_case_529:
 		switch data[p] {
-		case 82:
+		case 73:
 			goto st530
-		case 114:
+		case 105:
 			goto st530
 		}
-		goto tr418
+		goto tr398
 	st530:
 		if p++; p == pe {
 			goto _test_eof530
 		}
 	st_case_530:
 		switch data[p] {
-		case 83:
+		case 82:
 			goto st531
-		case 115:
+		case 114:
 			goto st531
 		}
-		goto tr418
+		goto tr398
 	st531:
 		if p++; p == pe {
 			goto _test_eof531
 		}
 	st_case_531:
 		switch data[p] {
-		case 73:
+		case 69:
 			goto st532
-		case 105:
+		case 101:
 			goto st532
 		}
-		goto tr418
+		goto tr398
 	st532:
 		if p++; p == pe {
 			goto _test_eof532
 		}
 	st_case_532:
 		switch data[p] {
-		case 79:
+		case 83:
 			goto st533
-		case 111:
+		case 115:
 			goto st533
 		}
-		goto tr418
+		goto tr398
 	st533:
 		if p++; p == pe {
 			goto _test_eof533
 		}
 	st_case_533:
 		switch data[p] {
-		case 78:
+		case 9:
 			goto st534
-		case 110:
+		case 32:
 			goto st534
+		case 58:
+			goto st535
 		}
-		goto tr418
+		goto tr398
 	st534:
 		if p++; p == pe {
 			goto _test_eof534
@@ -14053,454 +13497,450 @@ tr719:
 	st_case_534:
 		switch data[p] {
 		case 9:
-			goto tr733
+			goto st534
 		case 32:
-			goto tr733
+			goto st534
 		case 58:
-			goto tr734
+			goto st535
 		}
-		goto tr418
+		goto st0
 	st535:
 		if p++; p == pe {
 			goto _test_eof535
 		}
 	st_case_535:
-		if data[p] == 45 {
-			goto st536
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		switch _widec {
+		case 9:
+			goto st535
+		case 32:
+			goto st535
+		case 525:
+			goto st537
 		}
-		goto tr418
+		if 48 <= _widec && _widec <= 57 {
+			goto tr725
+		}
+		goto st0
+tr725:
+//line sip.rl:497
+msg.MinExpires=0
+//line sip.rl:248
+
+	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
+
+	goto st536
+tr727:
+//line sip.rl:248
+
+	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
+
+	goto st536
 	st536:
 		if p++; p == pe {
 			goto _test_eof536
 		}
 	st_case_536:
-		switch data[p] {
-		case 69:
-			goto st537
-		case 101:
-			goto st537
+//line msg_parse.go:13542
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		if _widec == 269 {
+			goto st372
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr727
 		}
-		goto tr418
+		goto st0
 	st537:
 		if p++; p == pe {
 			goto _test_eof537
 		}
 	st_case_537:
-		switch data[p] {
-		case 88:
-			goto st538
-		case 120:
+		if data[p] == 10 {
 			goto st538
 		}
-		goto tr418
+		goto st0
 	st538:
 		if p++; p == pe {
 			goto _test_eof538
 		}
 	st_case_538:
 		switch data[p] {
-		case 80:
+		case 9:
 			goto st539
-		case 112:
+		case 32:
 			goto st539
 		}
-		goto tr418
+		goto st0
 	st539:
 		if p++; p == pe {
 			goto _test_eof539
 		}
 	st_case_539:
 		switch data[p] {
-		case 73:
-			goto st540
-		case 105:
-			goto st540
+		case 9:
+			goto st539
+		case 32:
+			goto st539
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr725
 		}
-		goto tr418
+		goto st0
 	st540:
 		if p++; p == pe {
 			goto _test_eof540
 		}
 	st_case_540:
 		switch data[p] {
+		case 9:
+			goto tr650
+		case 32:
+			goto tr650
+		case 58:
+			goto tr651
 		case 82:
 			goto st541
 		case 114:
 			goto st541
 		}
-		goto tr418
+		goto tr398
 	st541:
 		if p++; p == pe {
 			goto _test_eof541
 		}
 	st_case_541:
 		switch data[p] {
-		case 69:
+		case 71:
 			goto st542
-		case 101:
+		case 103:
 			goto st542
 		}
-		goto tr418
+		goto tr398
 	st542:
 		if p++; p == pe {
 			goto _test_eof542
 		}
 	st_case_542:
 		switch data[p] {
-		case 83:
+		case 65:
 			goto st543
-		case 115:
+		case 97:
 			goto st543
 		}
-		goto tr418
+		goto tr398
 	st543:
 		if p++; p == pe {
 			goto _test_eof543
 		}
 	st_case_543:
 		switch data[p] {
-		case 9:
+		case 78:
 			goto st544
-		case 32:
+		case 110:
 			goto st544
-		case 58:
-			goto st545
 		}
-		goto tr418
+		goto tr398
 	st544:
 		if p++; p == pe {
 			goto _test_eof544
 		}
 	st_case_544:
 		switch data[p] {
-		case 9:
-			goto st544
-		case 32:
-			goto st544
-		case 58:
+		case 73:
+			goto st545
+		case 105:
 			goto st545
 		}
-		goto st0
+		goto tr398
 	st545:
 		if p++; p == pe {
 			goto _test_eof545
 		}
 	st_case_545:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st545
-		case 32:
-			goto st545
-		case 525:
-			goto st547
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr745
-		}
-		goto st0
-tr745:
-//line sip.rl:497
-msg.MinExpires=0
-//line sip.rl:248
-
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
-
-	goto st546
-tr747:
-//line sip.rl:248
-
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
-
-	goto st546
+		switch data[p] {
+		case 90:
+			goto st546
+		case 122:
+			goto st546
+		}
+		goto tr398
 	st546:
 		if p++; p == pe {
 			goto _test_eof546
 		}
 	st_case_546:
-//line msg_parse.go:14219
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		if _widec == 269 {
-			goto st382
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr747
+		switch data[p] {
+		case 65:
+			goto st547
+		case 97:
+			goto st547
 		}
-		goto st0
+		goto tr398
 	st547:
 		if p++; p == pe {
 			goto _test_eof547
 		}
 	st_case_547:
-		if data[p] == 10 {
+		switch data[p] {
+		case 84:
+			goto st548
+		case 116:
 			goto st548
 		}
-		goto st0
+		goto tr398
 	st548:
 		if p++; p == pe {
 			goto _test_eof548
 		}
 	st_case_548:
 		switch data[p] {
-		case 9:
+		case 73:
 			goto st549
-		case 32:
+		case 105:
 			goto st549
 		}
-		goto st0
+		goto tr398
 	st549:
 		if p++; p == pe {
 			goto _test_eof549
 		}
 	st_case_549:
 		switch data[p] {
-		case 9:
-			goto st549
-		case 32:
-			goto st549
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr745
+		case 79:
+			goto st550
+		case 111:
+			goto st550
 		}
-		goto st0
+		goto tr398
 	st550:
 		if p++; p == pe {
 			goto _test_eof550
 		}
 	st_case_550:
 		switch data[p] {
-		case 9:
-			goto tr670
-		case 32:
-			goto tr670
-		case 58:
-			goto tr671
-		case 82:
+		case 78:
 			goto st551
-		case 114:
+		case 110:
 			goto st551
 		}
-		goto tr418
+		goto tr398
 	st551:
 		if p++; p == pe {
 			goto _test_eof551
 		}
 	st_case_551:
 		switch data[p] {
-		case 71:
-			goto st552
-		case 103:
-			goto st552
+		case 9:
+			goto tr741
+		case 32:
+			goto tr741
+		case 58:
+			goto tr742
 		}
-		goto tr418
+		goto tr398
 	st552:
 		if p++; p == pe {
 			goto _test_eof552
 		}
 	st_case_552:
 		switch data[p] {
-		case 65:
-			goto st553
-		case 97:
+		case 45:
 			goto st553
+		case 82:
+			goto st571
+		case 114:
+			goto st571
 		}
-		goto tr418
+		goto tr398
 	st553:
 		if p++; p == pe {
 			goto _test_eof553
 		}
 	st_case_553:
 		switch data[p] {
-		case 78:
+		case 65:
 			goto st554
-		case 110:
+		case 97:
 			goto st554
 		}
-		goto tr418
+		goto tr398
 	st554:
 		if p++; p == pe {
 			goto _test_eof554
 		}
 	st_case_554:
 		switch data[p] {
-		case 73:
+		case 83:
 			goto st555
-		case 105:
+		case 115:
 			goto st555
 		}
-		goto tr418
+		goto tr398
 	st555:
 		if p++; p == pe {
 			goto _test_eof555
 		}
 	st_case_555:
 		switch data[p] {
-		case 90:
+		case 83:
 			goto st556
-		case 122:
+		case 115:
 			goto st556
 		}
-		goto tr418
+		goto tr398
 	st556:
 		if p++; p == pe {
 			goto _test_eof556
 		}
 	st_case_556:
 		switch data[p] {
-		case 65:
+		case 69:
 			goto st557
-		case 97:
+		case 101:
 			goto st557
 		}
-		goto tr418
+		goto tr398
 	st557:
 		if p++; p == pe {
 			goto _test_eof557
 		}
 	st_case_557:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st558
-		case 116:
+		case 114:
 			goto st558
 		}
-		goto tr418
+		goto tr398
 	st558:
 		if p++; p == pe {
 			goto _test_eof558
 		}
 	st_case_558:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st559
-		case 105:
+		case 116:
 			goto st559
 		}
-		goto tr418
+		goto tr398
 	st559:
 		if p++; p == pe {
 			goto _test_eof559
 		}
 	st_case_559:
 		switch data[p] {
-		case 79:
+		case 69:
 			goto st560
-		case 111:
+		case 101:
 			goto st560
 		}
-		goto tr418
+		goto tr398
 	st560:
 		if p++; p == pe {
 			goto _test_eof560
 		}
 	st_case_560:
 		switch data[p] {
-		case 78:
+		case 68:
 			goto st561
-		case 110:
+		case 100:
 			goto st561
 		}
-		goto tr418
+		goto tr398
 	st561:
 		if p++; p == pe {
 			goto _test_eof561
 		}
 	st_case_561:
-		switch data[p] {
-		case 9:
-			goto tr761
-		case 32:
-			goto tr761
-		case 58:
-			goto tr762
+		if data[p] == 45 {
+			goto st562
 		}
-		goto tr418
+		goto tr398
 	st562:
 		if p++; p == pe {
 			goto _test_eof562
 		}
 	st_case_562:
 		switch data[p] {
-		case 45:
+		case 73:
+			goto st563
+		case 105:
 			goto st563
-		case 82:
-			goto st581
-		case 114:
-			goto st581
 		}
-		goto tr418
+		goto tr398
 	st563:
 		if p++; p == pe {
 			goto _test_eof563
 		}
 	st_case_563:
 		switch data[p] {
-		case 65:
+		case 68:
 			goto st564
-		case 97:
+		case 100:
 			goto st564
 		}
-		goto tr418
+		goto tr398
 	st564:
 		if p++; p == pe {
 			goto _test_eof564
 		}
 	st_case_564:
 		switch data[p] {
-		case 83:
+		case 69:
 			goto st565
-		case 115:
+		case 101:
 			goto st565
 		}
-		goto tr418
+		goto tr398
 	st565:
 		if p++; p == pe {
 			goto _test_eof565
 		}
 	st_case_565:
 		switch data[p] {
-		case 83:
+		case 78:
 			goto st566
-		case 115:
+		case 110:
 			goto st566
 		}
-		goto tr418
+		goto tr398
 	st566:
 		if p++; p == pe {
 			goto _test_eof566
 		}
 	st_case_566:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st567
-		case 101:
+		case 116:
 			goto st567
 		}
-		goto tr418
+		goto tr398
 	st567:
 		if p++; p == pe {
 			goto _test_eof567
 		}
 	st_case_567:
 		switch data[p] {
-		case 82:
+		case 73:
 			goto st568
-		case 114:
+		case 105:
 			goto st568
 		}
-		goto tr418
+		goto tr398
 	st568:
 		if p++; p == pe {
 			goto _test_eof568
@@ -14512,124 +13952,135 @@ tr747:
 		case 116:
 			goto st569
 		}
-		goto tr418
+		goto tr398
 	st569:
 		if p++; p == pe {
 			goto _test_eof569
 		}
 	st_case_569:
 		switch data[p] {
-		case 69:
+		case 89:
 			goto st570
-		case 101:
+		case 121:
 			goto st570
 		}
-		goto tr418
+		goto tr398
 	st570:
 		if p++; p == pe {
 			goto _test_eof570
 		}
 	st_case_570:
 		switch data[p] {
-		case 68:
-			goto st571
-		case 100:
-			goto st571
+		case 9:
+			goto tr762
+		case 32:
+			goto tr762
+		case 58:
+			goto tr763
 		}
-		goto tr418
+		goto tr398
 	st571:
 		if p++; p == pe {
 			goto _test_eof571
 		}
 	st_case_571:
-		if data[p] == 45 {
+		switch data[p] {
+		case 73:
+			goto st572
+		case 79:
+			goto st578
+		case 105:
 			goto st572
+		case 111:
+			goto st578
 		}
-		goto tr418
+		goto tr398
 	st572:
 		if p++; p == pe {
 			goto _test_eof572
 		}
 	st_case_572:
 		switch data[p] {
-		case 73:
+		case 79:
 			goto st573
-		case 105:
+		case 111:
 			goto st573
 		}
-		goto tr418
+		goto tr398
 	st573:
 		if p++; p == pe {
 			goto _test_eof573
 		}
 	st_case_573:
 		switch data[p] {
-		case 68:
+		case 82:
 			goto st574
-		case 100:
+		case 114:
 			goto st574
 		}
-		goto tr418
+		goto tr398
 	st574:
 		if p++; p == pe {
 			goto _test_eof574
 		}
 	st_case_574:
 		switch data[p] {
-		case 69:
+		case 73:
 			goto st575
-		case 101:
+		case 105:
 			goto st575
 		}
-		goto tr418
+		goto tr398
 	st575:
 		if p++; p == pe {
 			goto _test_eof575
 		}
 	st_case_575:
 		switch data[p] {
-		case 78:
+		case 84:
 			goto st576
-		case 110:
+		case 116:
 			goto st576
 		}
-		goto tr418
+		goto tr398
 	st576:
 		if p++; p == pe {
 			goto _test_eof576
 		}
 	st_case_576:
 		switch data[p] {
-		case 84:
+		case 89:
 			goto st577
-		case 116:
+		case 121:
 			goto st577
 		}
-		goto tr418
+		goto tr398
 	st577:
 		if p++; p == pe {
 			goto _test_eof577
 		}
 	st_case_577:
 		switch data[p] {
-		case 73:
-			goto st578
-		case 105:
-			goto st578
+		case 9:
+			goto tr771
+		case 32:
+			goto tr771
+		case 58:
+			goto tr772
 		}
-		goto tr418
+		goto tr398
 	st578:
 		if p++; p == pe {
 			goto _test_eof578
 		}
 	st_case_578:
 		switch data[p] {
-		case 84:
+		case 88:
 			goto st579
-		case 116:
+		case 120:
 			goto st579
 		}
-		goto tr418
+		goto tr398
 	st579:
 		if p++; p == pe {
 			goto _test_eof579
@@ -14641,572 +14092,563 @@ tr747:
 		case 121:
 			goto st580
 		}
-		goto tr418
+		goto tr398
 	st580:
 		if p++; p == pe {
 			goto _test_eof580
 		}
 	st_case_580:
-		switch data[p] {
-		case 9:
-			goto tr782
-		case 32:
-			goto tr782
-		case 58:
-			goto tr783
+		if data[p] == 45 {
+			goto st581
 		}
-		goto tr418
+		goto tr398
 	st581:
 		if p++; p == pe {
 			goto _test_eof581
 		}
 	st_case_581:
 		switch data[p] {
-		case 73:
+		case 65:
 			goto st582
-		case 79:
-			goto st588
-		case 105:
+		case 82:
+			goto st603
+		case 97:
 			goto st582
-		case 111:
-			goto st588
+		case 114:
+			goto st603
 		}
-		goto tr418
+		goto tr398
 	st582:
 		if p++; p == pe {
 			goto _test_eof582
 		}
 	st_case_582:
 		switch data[p] {
-		case 79:
+		case 85:
 			goto st583
-		case 111:
+		case 117:
 			goto st583
 		}
-		goto tr418
+		goto tr398
 	st583:
 		if p++; p == pe {
 			goto _test_eof583
 		}
 	st_case_583:
 		switch data[p] {
-		case 82:
+		case 84:
 			goto st584
-		case 114:
+		case 116:
 			goto st584
 		}
-		goto tr418
+		goto tr398
 	st584:
 		if p++; p == pe {
 			goto _test_eof584
 		}
 	st_case_584:
 		switch data[p] {
-		case 73:
+		case 72:
 			goto st585
-		case 105:
+		case 104:
 			goto st585
 		}
-		goto tr418
+		goto tr398
 	st585:
 		if p++; p == pe {
 			goto _test_eof585
 		}
 	st_case_585:
 		switch data[p] {
-		case 84:
+		case 69:
 			goto st586
-		case 116:
+		case 79:
+			goto st594
+		case 101:
 			goto st586
+		case 111:
+			goto st594
 		}
-		goto tr418
+		goto tr398
 	st586:
 		if p++; p == pe {
 			goto _test_eof586
 		}
 	st_case_586:
 		switch data[p] {
-		case 89:
+		case 78:
 			goto st587
-		case 121:
+		case 110:
 			goto st587
 		}
-		goto tr418
+		goto tr398
 	st587:
 		if p++; p == pe {
 			goto _test_eof587
 		}
 	st_case_587:
 		switch data[p] {
-		case 9:
-			goto tr791
-		case 32:
-			goto tr791
-		case 58:
-			goto tr792
+		case 84:
+			goto st588
+		case 116:
+			goto st588
 		}
-		goto tr418
+		goto tr398
 	st588:
 		if p++; p == pe {
 			goto _test_eof588
 		}
 	st_case_588:
 		switch data[p] {
-		case 88:
+		case 73:
 			goto st589
-		case 120:
+		case 105:
 			goto st589
 		}
-		goto tr418
+		goto tr398
 	st589:
 		if p++; p == pe {
 			goto _test_eof589
 		}
 	st_case_589:
 		switch data[p] {
-		case 89:
+		case 67:
 			goto st590
-		case 121:
+		case 99:
 			goto st590
 		}
-		goto tr418
+		goto tr398
 	st590:
 		if p++; p == pe {
 			goto _test_eof590
 		}
 	st_case_590:
-		if data[p] == 45 {
+		switch data[p] {
+		case 65:
+			goto st591
+		case 97:
 			goto st591
 		}
-		goto tr418
+		goto tr398
 	st591:
 		if p++; p == pe {
 			goto _test_eof591
 		}
 	st_case_591:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st592
-		case 82:
-			goto st613
-		case 97:
+		case 116:
 			goto st592
-		case 114:
-			goto st613
 		}
-		goto tr418
+		goto tr398
 	st592:
 		if p++; p == pe {
 			goto _test_eof592
 		}
 	st_case_592:
 		switch data[p] {
-		case 85:
+		case 69:
 			goto st593
-		case 117:
+		case 101:
 			goto st593
 		}
-		goto tr418
+		goto tr398
 	st593:
 		if p++; p == pe {
 			goto _test_eof593
 		}
 	st_case_593:
 		switch data[p] {
-		case 84:
-			goto st594
-		case 116:
-			goto st594
+		case 9:
+			goto tr790
+		case 32:
+			goto tr790
+		case 58:
+			goto tr791
 		}
-		goto tr418
+		goto tr398
 	st594:
 		if p++; p == pe {
 			goto _test_eof594
 		}
 	st_case_594:
 		switch data[p] {
-		case 72:
+		case 82:
 			goto st595
-		case 104:
+		case 114:
 			goto st595
 		}
-		goto tr418
+		goto tr398
 	st595:
 		if p++; p == pe {
 			goto _test_eof595
 		}
 	st_case_595:
 		switch data[p] {
-		case 69:
+		case 73:
 			goto st596
-		case 79:
-			goto st604
-		case 101:
+		case 105:
 			goto st596
-		case 111:
-			goto st604
 		}
-		goto tr418
+		goto tr398
 	st596:
 		if p++; p == pe {
 			goto _test_eof596
 		}
 	st_case_596:
 		switch data[p] {
-		case 78:
+		case 90:
 			goto st597
-		case 110:
+		case 122:
 			goto st597
 		}
-		goto tr418
+		goto tr398
 	st597:
 		if p++; p == pe {
 			goto _test_eof597
 		}
 	st_case_597:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st598
-		case 116:
+		case 97:
 			goto st598
 		}
-		goto tr418
+		goto tr398
 	st598:
 		if p++; p == pe {
 			goto _test_eof598
 		}
 	st_case_598:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st599
-		case 105:
+		case 116:
 			goto st599
 		}
-		goto tr418
+		goto tr398
 	st599:
 		if p++; p == pe {
 			goto _test_eof599
 		}
 	st_case_599:
 		switch data[p] {
-		case 67:
+		case 73:
 			goto st600
-		case 99:
+		case 105:
 			goto st600
 		}
-		goto tr418
+		goto tr398
 	st600:
 		if p++; p == pe {
 			goto _test_eof600
 		}
 	st_case_600:
 		switch data[p] {
-		case 65:
+		case 79:
 			goto st601
-		case 97:
+		case 111:
 			goto st601
 		}
-		goto tr418
+		goto tr398
 	st601:
 		if p++; p == pe {
 			goto _test_eof601
 		}
 	st_case_601:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st602
-		case 116:
+		case 110:
 			goto st602
 		}
-		goto tr418
+		goto tr398
 	st602:
 		if p++; p == pe {
 			goto _test_eof602
 		}
 	st_case_602:
 		switch data[p] {
-		case 69:
-			goto st603
-		case 101:
-			goto st603
+		case 9:
+			goto tr800
+		case 32:
+			goto tr800
+		case 58:
+			goto tr801
 		}
-		goto tr418
+		goto tr398
 	st603:
 		if p++; p == pe {
 			goto _test_eof603
 		}
 	st_case_603:
 		switch data[p] {
-		case 9:
-			goto tr810
-		case 32:
-			goto tr810
-		case 58:
-			goto tr811
+		case 69:
+			goto st604
+		case 101:
+			goto st604
 		}
-		goto tr418
+		goto tr398
 	st604:
 		if p++; p == pe {
 			goto _test_eof604
 		}
 	st_case_604:
 		switch data[p] {
-		case 82:
+		case 81:
 			goto st605
-		case 114:
+		case 113:
 			goto st605
 		}
-		goto tr418
+		goto tr398
 	st605:
 		if p++; p == pe {
 			goto _test_eof605
 		}
 	st_case_605:
 		switch data[p] {
-		case 73:
+		case 85:
 			goto st606
-		case 105:
+		case 117:
 			goto st606
 		}
-		goto tr418
+		goto tr398
 	st606:
 		if p++; p == pe {
 			goto _test_eof606
 		}
 	st_case_606:
 		switch data[p] {
-		case 90:
+		case 73:
 			goto st607
-		case 122:
+		case 105:
 			goto st607
 		}
-		goto tr418
+		goto tr398
 	st607:
 		if p++; p == pe {
 			goto _test_eof607
 		}
 	st_case_607:
 		switch data[p] {
-		case 65:
+		case 82:
 			goto st608
-		case 97:
+		case 114:
 			goto st608
 		}
-		goto tr418
+		goto tr398
 	st608:
 		if p++; p == pe {
 			goto _test_eof608
 		}
 	st_case_608:
 		switch data[p] {
-		case 84:
+		case 69:
 			goto st609
-		case 116:
+		case 101:
 			goto st609
 		}
-		goto tr418
+		goto tr398
 	st609:
 		if p++; p == pe {
 			goto _test_eof609
 		}
 	st_case_609:
 		switch data[p] {
-		case 73:
-			goto st610
-		case 105:
-			goto st610
+		case 9:
+			goto tr808
+		case 32:
+			goto tr808
+		case 58:
+			goto tr809
 		}
-		goto tr418
+		goto tr398
 	st610:
 		if p++; p == pe {
 			goto _test_eof610
 		}
 	st_case_610:
 		switch data[p] {
+		case 9:
+			goto tr810
+		case 32:
+			goto tr810
+		case 58:
+			goto tr811
+		case 69:
+			goto st611
 		case 79:
+			goto st666
+		case 101:
 			goto st611
 		case 111:
-			goto st611
+			goto st666
 		}
-		goto tr418
+		goto tr398
 	st611:
 		if p++; p == pe {
 			goto _test_eof611
 		}
 	st_case_611:
 		switch data[p] {
-		case 78:
+		case 67:
 			goto st612
-		case 110:
+		case 70:
+			goto st622
+		case 77:
+			goto st633
+		case 80:
+			goto st646
+		case 81:
+			goto st652
+		case 84:
+			goto st657
+		case 99:
 			goto st612
+		case 102:
+			goto st622
+		case 109:
+			goto st633
+		case 112:
+			goto st646
+		case 113:
+			goto st652
+		case 116:
+			goto st657
 		}
-		goto tr418
+		goto tr398
 	st612:
 		if p++; p == pe {
 			goto _test_eof612
 		}
 	st_case_612:
 		switch data[p] {
-		case 9:
-			goto tr820
-		case 32:
-			goto tr820
-		case 58:
-			goto tr821
+		case 79:
+			goto st613
+		case 111:
+			goto st613
 		}
-		goto tr418
+		goto tr398
 	st613:
 		if p++; p == pe {
 			goto _test_eof613
 		}
 	st_case_613:
 		switch data[p] {
-		case 69:
+		case 82:
 			goto st614
-		case 101:
+		case 114:
 			goto st614
 		}
-		goto tr418
+		goto tr398
 	st614:
 		if p++; p == pe {
 			goto _test_eof614
 		}
 	st_case_614:
 		switch data[p] {
-		case 81:
+		case 68:
 			goto st615
-		case 113:
+		case 100:
 			goto st615
 		}
-		goto tr418
+		goto tr398
 	st615:
 		if p++; p == pe {
 			goto _test_eof615
 		}
 	st_case_615:
-		switch data[p] {
-		case 85:
-			goto st616
-		case 117:
+		if data[p] == 45 {
 			goto st616
 		}
-		goto tr418
+		goto tr398
 	st616:
 		if p++; p == pe {
 			goto _test_eof616
 		}
 	st_case_616:
 		switch data[p] {
-		case 73:
+		case 82:
 			goto st617
-		case 105:
+		case 114:
 			goto st617
 		}
-		goto tr418
+		goto tr398
 	st617:
 		if p++; p == pe {
 			goto _test_eof617
 		}
 	st_case_617:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st618
-		case 114:
+		case 111:
 			goto st618
 		}
-		goto tr418
+		goto tr398
 	st618:
 		if p++; p == pe {
 			goto _test_eof618
 		}
 	st_case_618:
 		switch data[p] {
-		case 69:
+		case 85:
 			goto st619
-		case 101:
+		case 117:
 			goto st619
 		}
-		goto tr418
+		goto tr398
 	st619:
 		if p++; p == pe {
 			goto _test_eof619
 		}
 	st_case_619:
 		switch data[p] {
-		case 9:
-			goto tr828
-		case 32:
-			goto tr828
-		case 58:
-			goto tr829
+		case 84:
+			goto st620
+		case 116:
+			goto st620
 		}
-		goto tr418
+		goto tr398
 	st620:
 		if p++; p == pe {
 			goto _test_eof620
 		}
 	st_case_620:
 		switch data[p] {
-		case 9:
-			goto tr830
-		case 32:
-			goto tr830
-		case 58:
-			goto tr831
 		case 69:
 			goto st621
-		case 79:
-			goto st676
 		case 101:
 			goto st621
-		case 111:
-			goto st676
 		}
-		goto tr418
+		goto tr398
 	st621:
 		if p++; p == pe {
 			goto _test_eof621
 		}
 	st_case_621:
 		switch data[p] {
-		case 67:
-			goto st622
-		case 70:
-			goto st632
-		case 77:
-			goto st643
-		case 80:
-			goto st656
-		case 81:
-			goto st662
-		case 84:
-			goto st667
-		case 99:
-			goto st622
-		case 102:
-			goto st632
-		case 109:
-			goto st643
-		case 112:
-			goto st656
-		case 113:
-			goto st662
-		case 116:
-			goto st667
+		case 9:
+			goto tr829
+		case 32:
+			goto tr829
+		case 58:
+			goto tr830
 		}
-		goto tr418
+		goto tr398
 	st622:
 		if p++; p == pe {
 			goto _test_eof622
 		}
 	st_case_622:
 		switch data[p] {
-		case 79:
+		case 69:
 			goto st623
-		case 111:
+		case 101:
 			goto st623
 		}
-		goto tr418
+		goto tr398
 	st623:
 		if p++; p == pe {
 			goto _test_eof623
@@ -15218,349 +14660,351 @@ tr747:
 		case 114:
 			goto st624
 		}
-		goto tr418
+		goto tr398
 	st624:
 		if p++; p == pe {
 			goto _test_eof624
 		}
 	st_case_624:
 		switch data[p] {
-		case 68:
-			goto st625
-		case 100:
+		case 45:
 			goto st625
+		case 82:
+			goto st628
+		case 114:
+			goto st628
 		}
-		goto tr418
+		goto tr398
 	st625:
 		if p++; p == pe {
 			goto _test_eof625
 		}
 	st_case_625:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st626
+		case 116:
 			goto st626
 		}
-		goto tr418
+		goto tr398
 	st626:
 		if p++; p == pe {
 			goto _test_eof626
 		}
 	st_case_626:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st627
-		case 114:
+		case 111:
 			goto st627
 		}
-		goto tr418
+		goto tr398
 	st627:
 		if p++; p == pe {
 			goto _test_eof627
 		}
 	st_case_627:
 		switch data[p] {
-		case 79:
-			goto st628
-		case 111:
-			goto st628
+		case 9:
+			goto tr810
+		case 32:
+			goto tr810
+		case 58:
+			goto tr811
 		}
-		goto tr418
+		goto tr398
 	st628:
 		if p++; p == pe {
 			goto _test_eof628
 		}
 	st_case_628:
 		switch data[p] {
-		case 85:
+		case 69:
 			goto st629
-		case 117:
+		case 101:
 			goto st629
 		}
-		goto tr418
+		goto tr398
 	st629:
 		if p++; p == pe {
 			goto _test_eof629
 		}
 	st_case_629:
 		switch data[p] {
-		case 84:
+		case 68:
 			goto st630
-		case 116:
+		case 100:
 			goto st630
 		}
-		goto tr418
+		goto tr398
 	st630:
 		if p++; p == pe {
 			goto _test_eof630
 		}
 	st_case_630:
-		switch data[p] {
-		case 69:
-			goto st631
-		case 101:
+		if data[p] == 45 {
 			goto st631
 		}
-		goto tr418
+		goto tr398
 	st631:
 		if p++; p == pe {
 			goto _test_eof631
 		}
 	st_case_631:
 		switch data[p] {
-		case 9:
-			goto tr849
-		case 32:
-			goto tr849
-		case 58:
-			goto tr850
+		case 66:
+			goto st632
+		case 98:
+			goto st632
 		}
-		goto tr418
+		goto tr398
 	st632:
 		if p++; p == pe {
 			goto _test_eof632
 		}
 	st_case_632:
 		switch data[p] {
-		case 69:
-			goto st633
-		case 101:
-			goto st633
+		case 89:
+			goto st354
+		case 121:
+			goto st354
 		}
-		goto tr418
+		goto tr398
 	st633:
 		if p++; p == pe {
 			goto _test_eof633
 		}
 	st_case_633:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st634
-		case 114:
+		case 111:
 			goto st634
 		}
-		goto tr418
+		goto tr398
 	st634:
 		if p++; p == pe {
 			goto _test_eof634
 		}
 	st_case_634:
 		switch data[p] {
-		case 45:
+		case 84:
+			goto st635
+		case 116:
 			goto st635
-		case 82:
-			goto st638
-		case 114:
-			goto st638
 		}
-		goto tr418
+		goto tr398
 	st635:
 		if p++; p == pe {
 			goto _test_eof635
 		}
 	st_case_635:
 		switch data[p] {
-		case 84:
+		case 69:
 			goto st636
-		case 116:
+		case 101:
 			goto st636
 		}
-		goto tr418
+		goto tr398
 	st636:
 		if p++; p == pe {
 			goto _test_eof636
 		}
 	st_case_636:
-		switch data[p] {
-		case 79:
-			goto st637
-		case 111:
+		if data[p] == 45 {
 			goto st637
 		}
-		goto tr418
+		goto tr398
 	st637:
 		if p++; p == pe {
 			goto _test_eof637
 		}
 	st_case_637:
 		switch data[p] {
-		case 9:
-			goto tr830
-		case 32:
-			goto tr830
-		case 58:
-			goto tr831
+		case 80:
+			goto st638
+		case 112:
+			goto st638
 		}
-		goto tr418
+		goto tr398
 	st638:
 		if p++; p == pe {
 			goto _test_eof638
 		}
 	st_case_638:
 		switch data[p] {
-		case 69:
+		case 65:
 			goto st639
-		case 101:
+		case 97:
 			goto st639
 		}
-		goto tr418
+		goto tr398
 	st639:
 		if p++; p == pe {
 			goto _test_eof639
 		}
 	st_case_639:
 		switch data[p] {
-		case 68:
+		case 82:
 			goto st640
-		case 100:
+		case 114:
 			goto st640
 		}
-		goto tr418
+		goto tr398
 	st640:
 		if p++; p == pe {
 			goto _test_eof640
 		}
 	st_case_640:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st641
+		case 116:
 			goto st641
 		}
-		goto tr418
+		goto tr398
 	st641:
 		if p++; p == pe {
 			goto _test_eof641
 		}
 	st_case_641:
 		switch data[p] {
-		case 66:
+		case 89:
 			goto st642
-		case 98:
+		case 121:
 			goto st642
 		}
-		goto tr418
+		goto tr398
 	st642:
 		if p++; p == pe {
 			goto _test_eof642
 		}
 	st_case_642:
-		switch data[p] {
-		case 89:
-			goto st364
-		case 121:
-			goto st364
+		if data[p] == 45 {
+			goto st643
 		}
-		goto tr418
+		goto tr398
 	st643:
 		if p++; p == pe {
 			goto _test_eof643
 		}
 	st_case_643:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st644
-		case 111:
+		case 105:
 			goto st644
 		}
-		goto tr418
+		goto tr398
 	st644:
 		if p++; p == pe {
 			goto _test_eof644
 		}
 	st_case_644:
 		switch data[p] {
-		case 84:
+		case 68:
 			goto st645
-		case 116:
+		case 100:
 			goto st645
 		}
-		goto tr418
+		goto tr398
 	st645:
 		if p++; p == pe {
 			goto _test_eof645
 		}
 	st_case_645:
 		switch data[p] {
-		case 69:
-			goto st646
-		case 101:
-			goto st646
+		case 9:
+			goto tr853
+		case 32:
+			goto tr853
+		case 58:
+			goto tr854
 		}
-		goto tr418
+		goto tr398
 	st646:
 		if p++; p == pe {
 			goto _test_eof646
 		}
 	st_case_646:
-		if data[p] == 45 {
+		switch data[p] {
+		case 76:
+			goto st647
+		case 108:
 			goto st647
 		}
-		goto tr418
+		goto tr398
 	st647:
 		if p++; p == pe {
 			goto _test_eof647
 		}
 	st_case_647:
 		switch data[p] {
-		case 80:
+		case 89:
 			goto st648
-		case 112:
+		case 121:
 			goto st648
 		}
-		goto tr418
+		goto tr398
 	st648:
 		if p++; p == pe {
 			goto _test_eof648
 		}
 	st_case_648:
-		switch data[p] {
-		case 65:
-			goto st649
-		case 97:
+		if data[p] == 45 {
 			goto st649
 		}
-		goto tr418
+		goto tr398
 	st649:
 		if p++; p == pe {
 			goto _test_eof649
 		}
 	st_case_649:
 		switch data[p] {
-		case 82:
+		case 84:
 			goto st650
-		case 114:
+		case 116:
 			goto st650
 		}
-		goto tr418
+		goto tr398
 	st650:
 		if p++; p == pe {
 			goto _test_eof650
 		}
 	st_case_650:
 		switch data[p] {
-		case 84:
+		case 79:
 			goto st651
-		case 116:
+		case 111:
 			goto st651
 		}
-		goto tr418
+		goto tr398
 	st651:
 		if p++; p == pe {
 			goto _test_eof651
 		}
 	st_case_651:
 		switch data[p] {
-		case 89:
-			goto st652
-		case 121:
-			goto st652
+		case 9:
+			goto tr860
+		case 32:
+			goto tr860
+		case 58:
+			goto tr861
 		}
-		goto tr418
+		goto tr398
 	st652:
 		if p++; p == pe {
 			goto _test_eof652
 		}
 	st_case_652:
-		if data[p] == 45 {
+		switch data[p] {
+		case 85:
+			goto st653
+		case 117:
 			goto st653
 		}
-		goto tr418
+		goto tr398
 	st653:
 		if p++; p == pe {
 			goto _test_eof653
@@ -15572,128 +15016,126 @@ tr747:
 		case 105:
 			goto st654
 		}
-		goto tr418
+		goto tr398
 	st654:
 		if p++; p == pe {
 			goto _test_eof654
 		}
 	st_case_654:
 		switch data[p] {
-		case 68:
+		case 82:
 			goto st655
-		case 100:
+		case 114:
 			goto st655
 		}
-		goto tr418
+		goto tr398
 	st655:
 		if p++; p == pe {
 			goto _test_eof655
 		}
 	st_case_655:
 		switch data[p] {
-		case 9:
-			goto tr873
-		case 32:
-			goto tr873
-		case 58:
-			goto tr874
+		case 69:
+			goto st656
+		case 101:
+			goto st656
 		}
-		goto tr418
+		goto tr398
 	st656:
 		if p++; p == pe {
 			goto _test_eof656
 		}
 	st_case_656:
 		switch data[p] {
-		case 76:
-			goto st657
-		case 108:
-			goto st657
+		case 9:
+			goto tr866
+		case 32:
+			goto tr866
+		case 58:
+			goto tr867
 		}
-		goto tr418
+		goto tr398
 	st657:
 		if p++; p == pe {
 			goto _test_eof657
 		}
 	st_case_657:
 		switch data[p] {
-		case 89:
+		case 82:
 			goto st658
-		case 121:
+		case 114:
 			goto st658
 		}
-		goto tr418
+		goto tr398
 	st658:
 		if p++; p == pe {
 			goto _test_eof658
 		}
 	st_case_658:
-		if data[p] == 45 {
+		switch data[p] {
+		case 89:
+			goto st659
+		case 121:
 			goto st659
 		}
-		goto tr418
+		goto tr398
 	st659:
 		if p++; p == pe {
 			goto _test_eof659
 		}
 	st_case_659:
-		switch data[p] {
-		case 84:
-			goto st660
-		case 116:
+		if data[p] == 45 {
 			goto st660
 		}
-		goto tr418
+		goto tr398
 	st660:
 		if p++; p == pe {
 			goto _test_eof660
 		}
 	st_case_660:
 		switch data[p] {
-		case 79:
+		case 65:
 			goto st661
-		case 111:
+		case 97:
 			goto st661
 		}
-		goto tr418
+		goto tr398
 	st661:
 		if p++; p == pe {
 			goto _test_eof661
 		}
 	st_case_661:
 		switch data[p] {
-		case 9:
-			goto tr880
-		case 32:
-			goto tr880
-		case 58:
-			goto tr881
+		case 70:
+			goto st662
+		case 102:
+			goto st662
 		}
-		goto tr418
+		goto tr398
 	st662:
 		if p++; p == pe {
 			goto _test_eof662
 		}
 	st_case_662:
 		switch data[p] {
-		case 85:
+		case 84:
 			goto st663
-		case 117:
+		case 116:
 			goto st663
 		}
-		goto tr418
+		goto tr398
 	st663:
 		if p++; p == pe {
 			goto _test_eof663
 		}
 	st_case_663:
 		switch data[p] {
-		case 73:
+		case 69:
 			goto st664
-		case 105:
+		case 101:
 			goto st664
 		}
-		goto tr418
+		goto tr398
 	st664:
 		if p++; p == pe {
 			goto _test_eof664
@@ -15705,102 +15147,117 @@ tr747:
 		case 114:
 			goto st665
 		}
-		goto tr418
+		goto tr398
 	st665:
 		if p++; p == pe {
 			goto _test_eof665
 		}
 	st_case_665:
 		switch data[p] {
-		case 69:
-			goto st666
-		case 101:
-			goto st666
+		case 9:
+			goto tr876
+		case 32:
+			goto tr876
+		case 58:
+			goto tr877
 		}
-		goto tr418
+		goto tr398
 	st666:
 		if p++; p == pe {
 			goto _test_eof666
 		}
 	st_case_666:
 		switch data[p] {
-		case 9:
-			goto tr886
-		case 32:
-			goto tr886
-		case 58:
-			goto tr887
+		case 85:
+			goto st667
+		case 117:
+			goto st667
 		}
-		goto tr418
+		goto tr398
 	st667:
 		if p++; p == pe {
 			goto _test_eof667
 		}
 	st_case_667:
 		switch data[p] {
-		case 82:
+		case 84:
 			goto st668
-		case 114:
+		case 116:
 			goto st668
 		}
-		goto tr418
+		goto tr398
 	st668:
 		if p++; p == pe {
 			goto _test_eof668
 		}
 	st_case_668:
 		switch data[p] {
-		case 89:
+		case 69:
 			goto st669
-		case 121:
+		case 101:
 			goto st669
 		}
-		goto tr418
+		goto tr398
 	st669:
 		if p++; p == pe {
 			goto _test_eof669
 		}
 	st_case_669:
-		if data[p] == 45 {
-			goto st670
+		switch data[p] {
+		case 9:
+			goto tr881
+		case 32:
+			goto tr881
+		case 58:
+			goto tr882
 		}
-		goto tr418
+		goto tr398
 	st670:
 		if p++; p == pe {
 			goto _test_eof670
 		}
 	st_case_670:
 		switch data[p] {
-		case 65:
+		case 9:
+			goto tr883
+		case 32:
+			goto tr883
+		case 58:
+			goto tr884
+		case 69:
 			goto st671
-		case 97:
+		case 85:
+			goto st676
+		case 101:
 			goto st671
+		case 117:
+			goto st676
 		}
-		goto tr418
+		goto tr398
 	st671:
 		if p++; p == pe {
 			goto _test_eof671
 		}
 	st_case_671:
 		switch data[p] {
-		case 70:
+		case 82:
 			goto st672
-		case 102:
+		case 114:
 			goto st672
 		}
-		goto tr418
+		goto tr398
 	st672:
 		if p++; p == pe {
 			goto _test_eof672
 		}
 	st_case_672:
 		switch data[p] {
-		case 84:
+		case 86:
 			goto st673
-		case 116:
+		case 118:
 			goto st673
 		}
-		goto tr418
+		goto tr398
 	st673:
 		if p++; p == pe {
 			goto _test_eof673
@@ -15812,7 +15269,7 @@ tr747:
 		case 101:
 			goto st674
 		}
-		goto tr418
+		goto tr398
 	st674:
 		if p++; p == pe {
 			goto _test_eof674
@@ -15824,7 +15281,7 @@ tr747:
 		case 114:
 			goto st675
 		}
-		goto tr418
+		goto tr398
 	st675:
 		if p++; p == pe {
 			goto _test_eof675
@@ -15832,37 +15289,41 @@ tr747:
 	st_case_675:
 		switch data[p] {
 		case 9:
-			goto tr896
+			goto tr891
 		case 32:
-			goto tr896
+			goto tr891
 		case 58:
-			goto tr897
+			goto tr892
 		}
-		goto tr418
+		goto tr398
 	st676:
 		if p++; p == pe {
 			goto _test_eof676
 		}
 	st_case_676:
 		switch data[p] {
-		case 85:
+		case 66:
 			goto st677
-		case 117:
+		case 80:
+			goto st682
+		case 98:
 			goto st677
+		case 112:
+			goto st682
 		}
-		goto tr418
+		goto tr398
 	st677:
 		if p++; p == pe {
 			goto _test_eof677
 		}
 	st_case_677:
 		switch data[p] {
-		case 84:
+		case 74:
 			goto st678
-		case 116:
+		case 106:
 			goto st678
 		}
-		goto tr418
+		goto tr398
 	st678:
 		if p++; p == pe {
 			goto _test_eof678
@@ -15874,79 +15335,69 @@ tr747:
 		case 101:
 			goto st679
 		}
-		goto tr418
+		goto tr398
 	st679:
 		if p++; p == pe {
 			goto _test_eof679
 		}
 	st_case_679:
 		switch data[p] {
-		case 9:
-			goto tr901
-		case 32:
-			goto tr901
-		case 58:
-			goto tr902
+		case 67:
+			goto st680
+		case 99:
+			goto st680
 		}
-		goto tr418
+		goto tr398
 	st680:
 		if p++; p == pe {
 			goto _test_eof680
 		}
 	st_case_680:
 		switch data[p] {
-		case 9:
-			goto tr903
-		case 32:
-			goto tr903
-		case 58:
-			goto tr904
-		case 69:
+		case 84:
 			goto st681
-		case 85:
-			goto st686
-		case 101:
+		case 116:
 			goto st681
-		case 117:
-			goto st686
 		}
-		goto tr418
+		goto tr398
 	st681:
 		if p++; p == pe {
 			goto _test_eof681
 		}
 	st_case_681:
 		switch data[p] {
-		case 82:
-			goto st682
-		case 114:
-			goto st682
+		case 9:
+			goto tr883
+		case 32:
+			goto tr883
+		case 58:
+			goto tr884
 		}
-		goto tr418
+		goto tr398
 	st682:
 		if p++; p == pe {
 			goto _test_eof682
 		}
 	st_case_682:
 		switch data[p] {
-		case 86:
+		case 80:
 			goto st683
-		case 118:
+		case 112:
 			goto st683
 		}
-		goto tr418
+		goto tr398
 	st683:
 		if p++; p == pe {
 			goto _test_eof683
 		}
 	st_case_683:
 		switch data[p] {
-		case 69:
+		case 79:
 			goto st684
-		case 101:
+		case 111:
 			goto st684
 		}
-		goto tr418
+		goto tr398
 	st684:
 		if p++; p == pe {
 			goto _test_eof684
@@ -15958,171 +15409,177 @@ tr747:
 		case 114:
 			goto st685
 		}
-		goto tr418
+		goto tr398
 	st685:
 		if p++; p == pe {
 			goto _test_eof685
 		}
 	st_case_685:
 		switch data[p] {
-		case 9:
-			goto tr911
-		case 32:
-			goto tr911
-		case 58:
-			goto tr912
+		case 84:
+			goto st686
+		case 116:
+			goto st686
 		}
-		goto tr418
+		goto tr398
 	st686:
 		if p++; p == pe {
 			goto _test_eof686
 		}
 	st_case_686:
 		switch data[p] {
-		case 66:
+		case 69:
 			goto st687
-		case 80:
-			goto st692
-		case 98:
+		case 101:
 			goto st687
-		case 112:
-			goto st692
 		}
-		goto tr418
+		goto tr398
 	st687:
 		if p++; p == pe {
 			goto _test_eof687
 		}
 	st_case_687:
 		switch data[p] {
-		case 74:
-			goto st688
-		case 106:
-			goto st688
+		case 68:
+			goto st495
+		case 100:
+			goto st495
 		}
-		goto tr418
+		goto tr398
 	st688:
 		if p++; p == pe {
 			goto _test_eof688
 		}
 	st_case_688:
 		switch data[p] {
-		case 69:
+		case 9:
+			goto tr904
+		case 32:
+			goto tr904
+		case 58:
+			goto tr905
+		case 73:
 			goto st689
-		case 101:
+		case 79:
+			goto st697
+		case 105:
 			goto st689
+		case 111:
+			goto st697
 		}
-		goto tr418
+		goto tr398
 	st689:
 		if p++; p == pe {
 			goto _test_eof689
 		}
 	st_case_689:
 		switch data[p] {
-		case 67:
+		case 77:
 			goto st690
-		case 99:
+		case 109:
 			goto st690
 		}
-		goto tr418
+		goto tr398
 	st690:
 		if p++; p == pe {
 			goto _test_eof690
 		}
 	st_case_690:
 		switch data[p] {
-		case 84:
+		case 69:
 			goto st691
-		case 116:
+		case 101:
 			goto st691
 		}
-		goto tr418
+		goto tr398
 	st691:
 		if p++; p == pe {
 			goto _test_eof691
 		}
 	st_case_691:
 		switch data[p] {
-		case 9:
-			goto tr903
-		case 32:
-			goto tr903
-		case 58:
-			goto tr904
+		case 83:
+			goto st692
+		case 115:
+			goto st692
 		}
-		goto tr418
+		goto tr398
 	st692:
 		if p++; p == pe {
 			goto _test_eof692
 		}
 	st_case_692:
 		switch data[p] {
-		case 80:
+		case 84:
 			goto st693
-		case 112:
+		case 116:
 			goto st693
 		}
-		goto tr418
+		goto tr398
 	st693:
 		if p++; p == pe {
 			goto _test_eof693
 		}
 	st_case_693:
 		switch data[p] {
-		case 79:
+		case 65:
 			goto st694
-		case 111:
+		case 97:
 			goto st694
 		}
-		goto tr418
+		goto tr398
 	st694:
 		if p++; p == pe {
 			goto _test_eof694
 		}
 	st_case_694:
 		switch data[p] {
-		case 82:
+		case 77:
 			goto st695
-		case 114:
+		case 109:
 			goto st695
 		}
-		goto tr418
+		goto tr398
 	st695:
 		if p++; p == pe {
 			goto _test_eof695
 		}
 	st_case_695:
 		switch data[p] {
-		case 84:
+		case 80:
 			goto st696
-		case 116:
+		case 112:
 			goto st696
 		}
-		goto tr418
+		goto tr398
 	st696:
 		if p++; p == pe {
 			goto _test_eof696
 		}
 	st_case_696:
 		switch data[p] {
-		case 69:
-			goto st697
-		case 101:
-			goto st697
+		case 9:
+			goto tr915
+		case 32:
+			goto tr915
+		case 58:
+			goto tr916
 		}
-		goto tr418
+		goto tr398
 	st697:
 		if p++; p == pe {
 			goto _test_eof697
 		}
 	st_case_697:
 		switch data[p] {
-		case 68:
-			goto st505
-		case 100:
-			goto st505
+		case 9:
+			goto tr904
+		case 32:
+			goto tr904
+		case 58:
+			goto tr905
 		}
-		goto tr418
+		goto tr398
 	st698:
 		if p++; p == pe {
 			goto _test_eof698
@@ -16130,133 +15587,129 @@ tr747:
 	st_case_698:
 		switch data[p] {
 		case 9:
-			goto tr924
+			goto tr917
 		case 32:
-			goto tr924
+			goto tr917
 		case 58:
-			goto tr925
-		case 73:
+			goto tr918
+		case 78:
 			goto st699
-		case 79:
-			goto st707
-		case 105:
+		case 83:
+			goto st709
+		case 110:
 			goto st699
-		case 111:
-			goto st707
+		case 115:
+			goto st709
 		}
-		goto tr418
+		goto tr398
 	st699:
 		if p++; p == pe {
 			goto _test_eof699
 		}
 	st_case_699:
 		switch data[p] {
-		case 77:
+		case 83:
 			goto st700
-		case 109:
+		case 115:
 			goto st700
 		}
-		goto tr418
+		goto tr398
 	st700:
 		if p++; p == pe {
 			goto _test_eof700
 		}
 	st_case_700:
 		switch data[p] {
-		case 69:
+		case 85:
 			goto st701
-		case 101:
+		case 117:
 			goto st701
 		}
-		goto tr418
+		goto tr398
 	st701:
 		if p++; p == pe {
 			goto _test_eof701
 		}
 	st_case_701:
 		switch data[p] {
-		case 83:
+		case 80:
 			goto st702
-		case 115:
+		case 112:
 			goto st702
 		}
-		goto tr418
+		goto tr398
 	st702:
 		if p++; p == pe {
 			goto _test_eof702
 		}
 	st_case_702:
 		switch data[p] {
-		case 84:
+		case 80:
 			goto st703
-		case 116:
+		case 112:
 			goto st703
 		}
-		goto tr418
+		goto tr398
 	st703:
 		if p++; p == pe {
 			goto _test_eof703
 		}
 	st_case_703:
 		switch data[p] {
-		case 65:
+		case 79:
 			goto st704
-		case 97:
+		case 111:
 			goto st704
 		}
-		goto tr418
+		goto tr398
 	st704:
 		if p++; p == pe {
 			goto _test_eof704
 		}
 	st_case_704:
 		switch data[p] {
-		case 77:
+		case 82:
 			goto st705
-		case 109:
+		case 114:
 			goto st705
 		}
-		goto tr418
+		goto tr398
 	st705:
 		if p++; p == pe {
 			goto _test_eof705
 		}
 	st_case_705:
 		switch data[p] {
-		case 80:
+		case 84:
 			goto st706
-		case 112:
+		case 116:
 			goto st706
 		}
-		goto tr418
+		goto tr398
 	st706:
 		if p++; p == pe {
 			goto _test_eof706
 		}
 	st_case_706:
 		switch data[p] {
-		case 9:
-			goto tr935
-		case 32:
-			goto tr935
-		case 58:
-			goto tr936
+		case 69:
+			goto st707
+		case 101:
+			goto st707
 		}
-		goto tr418
+		goto tr398
 	st707:
 		if p++; p == pe {
 			goto _test_eof707
 		}
 	st_case_707:
 		switch data[p] {
-		case 9:
-			goto tr924
-		case 32:
-			goto tr924
-		case 58:
-			goto tr925
+		case 68:
+			goto st708
+		case 100:
+			goto st708
 		}
-		goto tr418
+		goto tr398
 	st708:
 		if p++; p == pe {
 			goto _test_eof708
@@ -16264,129 +15717,120 @@ tr747:
 	st_case_708:
 		switch data[p] {
 		case 9:
-			goto tr937
+			goto tr930
 		case 32:
-			goto tr937
+			goto tr930
 		case 58:
-			goto tr938
-		case 78:
-			goto st709
-		case 83:
-			goto st719
-		case 110:
-			goto st709
-		case 115:
-			goto st719
+			goto tr931
 		}
-		goto tr418
+		goto tr398
 	st709:
 		if p++; p == pe {
 			goto _test_eof709
 		}
 	st_case_709:
 		switch data[p] {
-		case 83:
+		case 69:
 			goto st710
-		case 115:
+		case 101:
 			goto st710
 		}
-		goto tr418
+		goto tr398
 	st710:
 		if p++; p == pe {
 			goto _test_eof710
 		}
 	st_case_710:
 		switch data[p] {
-		case 85:
+		case 82:
 			goto st711
-		case 117:
+		case 114:
 			goto st711
 		}
-		goto tr418
+		goto tr398
 	st711:
 		if p++; p == pe {
 			goto _test_eof711
 		}
 	st_case_711:
-		switch data[p] {
-		case 80:
-			goto st712
-		case 112:
+		if data[p] == 45 {
 			goto st712
 		}
-		goto tr418
+		goto tr398
 	st712:
 		if p++; p == pe {
 			goto _test_eof712
 		}
 	st_case_712:
 		switch data[p] {
-		case 80:
+		case 65:
 			goto st713
-		case 112:
+		case 97:
 			goto st713
 		}
-		goto tr418
+		goto tr398
 	st713:
 		if p++; p == pe {
 			goto _test_eof713
 		}
 	st_case_713:
 		switch data[p] {
-		case 79:
+		case 71:
 			goto st714
-		case 111:
+		case 103:
 			goto st714
 		}
-		goto tr418
+		goto tr398
 	st714:
 		if p++; p == pe {
 			goto _test_eof714
 		}
 	st_case_714:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st715
-		case 114:
+		case 101:
 			goto st715
 		}
-		goto tr418
+		goto tr398
 	st715:
 		if p++; p == pe {
 			goto _test_eof715
 		}
 	st_case_715:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st716
-		case 116:
+		case 110:
 			goto st716
 		}
-		goto tr418
+		goto tr398
 	st716:
 		if p++; p == pe {
 			goto _test_eof716
 		}
 	st_case_716:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st717
-		case 101:
+		case 116:
 			goto st717
 		}
-		goto tr418
+		goto tr398
 	st717:
 		if p++; p == pe {
 			goto _test_eof717
 		}
 	st_case_717:
 		switch data[p] {
-		case 68:
-			goto st718
-		case 100:
-			goto st718
+		case 9:
+			goto tr940
+		case 32:
+			goto tr940
+		case 58:
+			goto tr941
 		}
-		goto tr418
+		goto tr398
 	st718:
 		if p++; p == pe {
 			goto _test_eof718
@@ -16394,192 +15838,197 @@ tr747:
 	st_case_718:
 		switch data[p] {
 		case 9:
-			goto tr950
+			goto st719
 		case 32:
-			goto tr950
+			goto st719
 		case 58:
-			goto tr951
+			goto st720
+		case 73:
+			goto st724
+		case 105:
+			goto st724
 		}
-		goto tr418
+		goto tr398
 	st719:
 		if p++; p == pe {
 			goto _test_eof719
 		}
 	st_case_719:
 		switch data[p] {
-		case 69:
-			goto st720
-		case 101:
+		case 9:
+			goto st719
+		case 32:
+			goto st719
+		case 58:
 			goto st720
 		}
-		goto tr418
+		goto st0
 	st720:
 		if p++; p == pe {
 			goto _test_eof720
 		}
 	st_case_720:
-		switch data[p] {
-		case 82:
-			goto st721
-		case 114:
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		switch _widec {
+		case 9:
+			goto st720
+		case 32:
+			goto st720
+		case 269:
+			goto tr945
+		case 525:
 			goto st721
 		}
-		goto tr418
+		switch {
+		case _widec > 12:
+			if 14 <= _widec {
+				goto tr945
+			}
+		default:
+			goto tr945
+		}
+		goto st0
 	st721:
 		if p++; p == pe {
 			goto _test_eof721
 		}
 	st_case_721:
-		if data[p] == 45 {
+		if data[p] == 10 {
 			goto st722
 		}
-		goto tr418
+		goto st0
 	st722:
 		if p++; p == pe {
 			goto _test_eof722
 		}
 	st_case_722:
 		switch data[p] {
-		case 65:
+		case 9:
 			goto st723
-		case 97:
+		case 32:
 			goto st723
 		}
-		goto tr418
+		goto st0
 	st723:
 		if p++; p == pe {
 			goto _test_eof723
 		}
 	st_case_723:
 		switch data[p] {
-		case 71:
-			goto st724
-		case 103:
-			goto st724
+		case 9:
+			goto st723
+		case 32:
+			goto st723
 		}
-		goto tr418
+		goto tr945
 	st724:
 		if p++; p == pe {
 			goto _test_eof724
 		}
 	st_case_724:
 		switch data[p] {
-		case 69:
+		case 65:
 			goto st725
-		case 101:
+		case 97:
 			goto st725
 		}
-		goto tr418
+		goto tr398
 	st725:
 		if p++; p == pe {
 			goto _test_eof725
 		}
 	st_case_725:
 		switch data[p] {
-		case 78:
-			goto st726
-		case 110:
-			goto st726
+		case 9:
+			goto st719
+		case 32:
+			goto st719
+		case 58:
+			goto st720
 		}
-		goto tr418
+		goto tr398
 	st726:
 		if p++; p == pe {
 			goto _test_eof726
 		}
 	st_case_726:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st727
-		case 116:
+		case 87:
+			goto st733
+		case 97:
 			goto st727
+		case 119:
+			goto st733
 		}
-		goto tr418
+		goto tr398
 	st727:
 		if p++; p == pe {
 			goto _test_eof727
 		}
 	st_case_727:
 		switch data[p] {
-		case 9:
-			goto tr960
-		case 32:
-			goto tr960
-		case 58:
-			goto tr961
+		case 82:
+			goto st728
+		case 114:
+			goto st728
 		}
-		goto tr418
+		goto tr398
 	st728:
 		if p++; p == pe {
 			goto _test_eof728
 		}
 	st_case_728:
 		switch data[p] {
-		case 9:
+		case 78:
 			goto st729
-		case 32:
+		case 110:
 			goto st729
-		case 58:
-			goto st730
-		case 73:
-			goto st734
-		case 105:
-			goto st734
 		}
-		goto tr418
+		goto tr398
 	st729:
 		if p++; p == pe {
 			goto _test_eof729
 		}
 	st_case_729:
 		switch data[p] {
-		case 9:
-			goto st729
-		case 32:
-			goto st729
-		case 58:
+		case 73:
+			goto st730
+		case 105:
 			goto st730
 		}
-		goto st0
+		goto tr398
 	st730:
 		if p++; p == pe {
 			goto _test_eof730
 		}
 	st_case_730:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st730
-		case 32:
-			goto st730
-		case 269:
-			goto tr965
-		case 525:
+		switch data[p] {
+		case 78:
+			goto st731
+		case 110:
 			goto st731
 		}
-		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr965
-			}
-		default:
-			goto tr965
-		}
-		goto st0
+		goto tr398
 	st731:
 		if p++; p == pe {
 			goto _test_eof731
 		}
 	st_case_731:
-		if data[p] == 10 {
+		switch data[p] {
+		case 71:
+			goto st732
+		case 103:
 			goto st732
 		}
-		goto st0
+		goto tr398
 	st732:
 		if p++; p == pe {
 			goto _test_eof732
@@ -16587,101 +16036,94 @@ tr747:
 	st_case_732:
 		switch data[p] {
 		case 9:
-			goto st733
+			goto tr957
 		case 32:
-			goto st733
+			goto tr957
+		case 58:
+			goto tr958
 		}
-		goto st0
+		goto tr398
 	st733:
 		if p++; p == pe {
 			goto _test_eof733
 		}
 	st_case_733:
 		switch data[p] {
-		case 9:
-			goto st733
-		case 32:
-			goto st733
+		case 87:
+			goto st734
+		case 119:
+			goto st734
 		}
-		goto tr965
+		goto tr398
 	st734:
 		if p++; p == pe {
 			goto _test_eof734
 		}
 	st_case_734:
-		switch data[p] {
-		case 65:
-			goto st735
-		case 97:
+		if data[p] == 45 {
 			goto st735
 		}
-		goto tr418
+		goto tr398
 	st735:
 		if p++; p == pe {
 			goto _test_eof735
 		}
 	st_case_735:
 		switch data[p] {
-		case 9:
-			goto st729
-		case 32:
-			goto st729
-		case 58:
-			goto st730
+		case 65:
+			goto st736
+		case 97:
+			goto st736
 		}
-		goto tr418
+		goto tr398
 	st736:
 		if p++; p == pe {
 			goto _test_eof736
 		}
 	st_case_736:
 		switch data[p] {
-		case 65:
+		case 85:
 			goto st737
-		case 87:
-			goto st743
-		case 97:
+		case 117:
 			goto st737
-		case 119:
-			goto st743
 		}
-		goto tr418
+		goto tr398
 	st737:
 		if p++; p == pe {
 			goto _test_eof737
 		}
 	st_case_737:
 		switch data[p] {
-		case 82:
+		case 84:
 			goto st738
-		case 114:
+		case 116:
 			goto st738
 		}
-		goto tr418
+		goto tr398
 	st738:
 		if p++; p == pe {
 			goto _test_eof738
 		}
 	st_case_738:
 		switch data[p] {
-		case 78:
+		case 72:
 			goto st739
-		case 110:
+		case 104:
 			goto st739
 		}
-		goto tr418
+		goto tr398
 	st739:
 		if p++; p == pe {
 			goto _test_eof739
 		}
 	st_case_739:
 		switch data[p] {
-		case 73:
+		case 69:
 			goto st740
-		case 105:
+		case 101:
 			goto st740
 		}
-		goto tr418
+		goto tr398
 	st740:
 		if p++; p == pe {
 			goto _test_eof740
@@ -16693,212 +16135,93 @@ tr747:
 		case 110:
 			goto st741
 		}
-		goto tr418
+		goto tr398
 	st741:
 		if p++; p == pe {
 			goto _test_eof741
 		}
 	st_case_741:
 		switch data[p] {
-		case 71:
+		case 84:
 			goto st742
-		case 103:
+		case 116:
 			goto st742
 		}
-		goto tr418
+		goto tr398
 	st742:
 		if p++; p == pe {
 			goto _test_eof742
 		}
 	st_case_742:
 		switch data[p] {
-		case 9:
-			goto tr977
-		case 32:
-			goto tr977
-		case 58:
-			goto tr978
+		case 73:
+			goto st743
+		case 105:
+			goto st743
 		}
-		goto tr418
+		goto tr398
 	st743:
 		if p++; p == pe {
 			goto _test_eof743
 		}
 	st_case_743:
 		switch data[p] {
-		case 87:
+		case 67:
 			goto st744
-		case 119:
+		case 99:
 			goto st744
 		}
-		goto tr418
+		goto tr398
 	st744:
 		if p++; p == pe {
 			goto _test_eof744
 		}
 	st_case_744:
-		if data[p] == 45 {
+		switch data[p] {
+		case 65:
+			goto st745
+		case 97:
 			goto st745
 		}
-		goto tr418
+		goto tr398
 	st745:
 		if p++; p == pe {
 			goto _test_eof745
 		}
 	st_case_745:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st746
-		case 97:
+		case 116:
 			goto st746
 		}
-		goto tr418
+		goto tr398
 	st746:
 		if p++; p == pe {
 			goto _test_eof746
 		}
 	st_case_746:
 		switch data[p] {
-		case 85:
+		case 69:
 			goto st747
-		case 117:
+		case 101:
 			goto st747
 		}
-		goto tr418
+		goto tr398
 	st747:
 		if p++; p == pe {
 			goto _test_eof747
 		}
 	st_case_747:
-		switch data[p] {
-		case 84:
-			goto st748
-		case 116:
-			goto st748
-		}
-		goto tr418
-	st748:
-		if p++; p == pe {
-			goto _test_eof748
-		}
-	st_case_748:
-		switch data[p] {
-		case 72:
-			goto st749
-		case 104:
-			goto st749
-		}
-		goto tr418
-	st749:
-		if p++; p == pe {
-			goto _test_eof749
-		}
-	st_case_749:
-		switch data[p] {
-		case 69:
-			goto st750
-		case 101:
-			goto st750
-		}
-		goto tr418
-	st750:
-		if p++; p == pe {
-			goto _test_eof750
-		}
-	st_case_750:
-		switch data[p] {
-		case 78:
-			goto st751
-		case 110:
-			goto st751
-		}
-		goto tr418
-	st751:
-		if p++; p == pe {
-			goto _test_eof751
-		}
-	st_case_751:
-		switch data[p] {
-		case 84:
-			goto st752
-		case 116:
-			goto st752
-		}
-		goto tr418
-	st752:
-		if p++; p == pe {
-			goto _test_eof752
-		}
-	st_case_752:
-		switch data[p] {
-		case 73:
-			goto st753
-		case 105:
-			goto st753
-		}
-		goto tr418
-	st753:
-		if p++; p == pe {
-			goto _test_eof753
-		}
-	st_case_753:
-		switch data[p] {
-		case 67:
-			goto st754
-		case 99:
-			goto st754
-		}
-		goto tr418
-	st754:
-		if p++; p == pe {
-			goto _test_eof754
-		}
-	st_case_754:
-		switch data[p] {
-		case 65:
-			goto st755
-		case 97:
-			goto st755
-		}
-		goto tr418
-	st755:
-		if p++; p == pe {
-			goto _test_eof755
-		}
-	st_case_755:
-		switch data[p] {
-		case 84:
-			goto st756
-		case 116:
-			goto st756
-		}
-		goto tr418
-	st756:
-		if p++; p == pe {
-			goto _test_eof756
-		}
-	st_case_756:
-		switch data[p] {
-		case 69:
-			goto st757
-		case 101:
-			goto st757
-		}
-		goto tr418
-	st757:
-		if p++; p == pe {
-			goto _test_eof757
-		}
-	st_case_757:
 		switch data[p] {
 		case 9:
-			goto tr993
+			goto tr973
 		case 32:
-			goto tr993
+			goto tr973
 		case 58:
-			goto tr994
+			goto tr974
 		}
-		goto tr418
+		goto tr398
 	st_out:
 	_test_eof2: cs = 2; goto _test_eof
 	_test_eof3: cs = 3; goto _test_eof
@@ -16912,7 +16235,7 @@ tr747:
 	_test_eof11: cs = 11; goto _test_eof
 	_test_eof12: cs = 12; goto _test_eof
 	_test_eof13: cs = 13; goto _test_eof
-	_test_eof758: cs = 758; goto _test_eof
+	_test_eof748: cs = 748; goto _test_eof
 	_test_eof14: cs = 14; goto _test_eof
 	_test_eof15: cs = 15; goto _test_eof
 	_test_eof16: cs = 16; goto _test_eof
@@ -16944,7 +16267,7 @@ tr747:
 	_test_eof42: cs = 42; goto _test_eof
 	_test_eof43: cs = 43; goto _test_eof
 	_test_eof44: cs = 44; goto _test_eof
-	_test_eof759: cs = 759; goto _test_eof
+	_test_eof749: cs = 749; goto _test_eof
 	_test_eof45: cs = 45; goto _test_eof
 	_test_eof46: cs = 46; goto _test_eof
 	_test_eof47: cs = 47; goto _test_eof
@@ -16972,7 +16295,7 @@ tr747:
 	_test_eof69: cs = 69; goto _test_eof
 	_test_eof70: cs = 70; goto _test_eof
 	_test_eof71: cs = 71; goto _test_eof
-	_test_eof760: cs = 760; goto _test_eof
+	_test_eof750: cs = 750; goto _test_eof
 	_test_eof72: cs = 72; goto _test_eof
 	_test_eof73: cs = 73; goto _test_eof
 	_test_eof74: cs = 74; goto _test_eof
@@ -17016,7 +16339,7 @@ tr747:
 	_test_eof112: cs = 112; goto _test_eof
 	_test_eof113: cs = 113; goto _test_eof
 	_test_eof114: cs = 114; goto _test_eof
-	_test_eof761: cs = 761; goto _test_eof
+	_test_eof751: cs = 751; goto _test_eof
 	_test_eof115: cs = 115; goto _test_eof
 	_test_eof116: cs = 116; goto _test_eof
 	_test_eof117: cs = 117; goto _test_eof
@@ -17059,7 +16382,7 @@ tr747:
 	_test_eof154: cs = 154; goto _test_eof
 	_test_eof155: cs = 155; goto _test_eof
 	_test_eof156: cs = 156; goto _test_eof
-	_test_eof762: cs = 762; goto _test_eof
+	_test_eof752: cs = 752; goto _test_eof
 	_test_eof157: cs = 157; goto _test_eof
 	_test_eof158: cs = 158; goto _test_eof
 	_test_eof159: cs = 159; goto _test_eof
@@ -17099,7 +16422,7 @@ tr747:
 	_test_eof193: cs = 193; goto _test_eof
 	_test_eof194: cs = 194; goto _test_eof
 	_test_eof195: cs = 195; goto _test_eof
-	_test_eof763: cs = 763; goto _test_eof
+	_test_eof753: cs = 753; goto _test_eof
 	_test_eof196: cs = 196; goto _test_eof
 	_test_eof197: cs = 197; goto _test_eof
 	_test_eof198: cs = 198; goto _test_eof
@@ -17139,7 +16462,7 @@ tr747:
 	_test_eof232: cs = 232; goto _test_eof
 	_test_eof233: cs = 233; goto _test_eof
 	_test_eof234: cs = 234; goto _test_eof
-	_test_eof764: cs = 764; goto _test_eof
+	_test_eof754: cs = 754; goto _test_eof
 	_test_eof235: cs = 235; goto _test_eof
 	_test_eof236: cs = 236; goto _test_eof
 	_test_eof237: cs = 237; goto _test_eof
@@ -17152,51 +16475,45 @@ tr747:
 	_test_eof244: cs = 244; goto _test_eof
 	_test_eof245: cs = 245; goto _test_eof
 	_test_eof246: cs = 246; goto _test_eof
-	_test_eof765: cs = 765; goto _test_eof
 	_test_eof247: cs = 247; goto _test_eof
 	_test_eof248: cs = 248; goto _test_eof
+	_test_eof755: cs = 755; goto _test_eof
 	_test_eof249: cs = 249; goto _test_eof
-	_test_eof766: cs = 766; goto _test_eof
 	_test_eof250: cs = 250; goto _test_eof
 	_test_eof251: cs = 251; goto _test_eof
-	_test_eof767: cs = 767; goto _test_eof
 	_test_eof252: cs = 252; goto _test_eof
 	_test_eof253: cs = 253; goto _test_eof
 	_test_eof254: cs = 254; goto _test_eof
-	_test_eof768: cs = 768; goto _test_eof
-	_test_eof769: cs = 769; goto _test_eof
-	_test_eof770: cs = 770; goto _test_eof
 	_test_eof255: cs = 255; goto _test_eof
 	_test_eof256: cs = 256; goto _test_eof
 	_test_eof257: cs = 257; goto _test_eof
 	_test_eof258: cs = 258; goto _test_eof
-	_test_eof771: cs = 771; goto _test_eof
 	_test_eof259: cs = 259; goto _test_eof
 	_test_eof260: cs = 260; goto _test_eof
+	_test_eof756: cs = 756; goto _test_eof
 	_test_eof261: cs = 261; goto _test_eof
 	_test_eof262: cs = 262; goto _test_eof
 	_test_eof263: cs = 263; goto _test_eof
 	_test_eof264: cs = 264; goto _test_eof
 	_test_eof265: cs = 265; goto _test_eof
 	_test_eof266: cs = 266; goto _test_eof
+	_test_eof757: cs = 757; goto _test_eof
 	_test_eof267: cs = 267; goto _test_eof
 	_test_eof268: cs = 268; goto _test_eof
 	_test_eof269: cs = 269; goto _test_eof
 	_test_eof270: cs = 270; goto _test_eof
-	_test_eof772: cs = 772; goto _test_eof
 	_test_eof271: cs = 271; goto _test_eof
+	_test_eof758: cs = 758; goto _test_eof
 	_test_eof272: cs = 272; goto _test_eof
 	_test_eof273: cs = 273; goto _test_eof
 	_test_eof274: cs = 274; goto _test_eof
 	_test_eof275: cs = 275; goto _test_eof
 	_test_eof276: cs = 276; goto _test_eof
-	_test_eof773: cs = 773; goto _test_eof
 	_test_eof277: cs = 277; goto _test_eof
 	_test_eof278: cs = 278; goto _test_eof
 	_test_eof279: cs = 279; goto _test_eof
 	_test_eof280: cs = 280; goto _test_eof
 	_test_eof281: cs = 281; goto _test_eof
-	_test_eof774: cs = 774; goto _test_eof
 	_test_eof282: cs = 282; goto _test_eof
 	_test_eof283: cs = 283; goto _test_eof
 	_test_eof284: cs = 284; goto _test_eof
@@ -17663,28 +16980,18 @@ tr747:
 	_test_eof745: cs = 745; goto _test_eof
 	_test_eof746: cs = 746; goto _test_eof
 	_test_eof747: cs = 747; goto _test_eof
-	_test_eof748: cs = 748; goto _test_eof
-	_test_eof749: cs = 749; goto _test_eof
-	_test_eof750: cs = 750; goto _test_eof
-	_test_eof751: cs = 751; goto _test_eof
-	_test_eof752: cs = 752; goto _test_eof
-	_test_eof753: cs = 753; goto _test_eof
-	_test_eof754: cs = 754; goto _test_eof
-	_test_eof755: cs = 755; goto _test_eof
-	_test_eof756: cs = 756; goto _test_eof
-	_test_eof757: cs = 757; goto _test_eof
 
 	_test_eof: {}
 	if p == eof {
 		switch cs {
-		case 282, 283, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 371, 372, 373, 374, 375, 376, 386, 387, 388, 389, 390, 391, 392, 393, 394, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 435, 442, 443, 444, 445, 446, 447, 448, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 483, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 515, 516, 517, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 543, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 728, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756, 757:
+		case 272, 273, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 361, 362, 363, 364, 365, 366, 376, 377, 378, 379, 380, 381, 382, 383, 384, 390, 391, 392, 393, 394, 395, 396, 397, 398, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 432, 433, 434, 435, 436, 437, 438, 450, 451, 452, 453, 454, 455, 456, 457, 458, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 480, 481, 482, 483, 484, 485, 486, 487, 488, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 514, 515, 516, 517, 518, 519, 520, 521, 522, 523, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 540, 541, 542, 543, 544, 545, 546, 547, 548, 549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 724, 725, 726, 727, 728, 729, 730, 731, 732, 733, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746, 747:
 //line sip.rl:171
 
 	p = ( mark) - 1
 
-	{goto st273 }
+	{goto st263 }
 
-//line msg_parse.go:17679
+//line msg_parse.go:16986
 		}
 	}
 
diff --git a/sip/sip.rl b/sip/sip.rl
index 82d70b2..7a6c489 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -425,7 +425,7 @@ addr_angled       := addr_display? addr_spec addr_angled_end;
 addr_uri_end       = CRLF @Addr @goto_header
                    | SEMI <: any @hold @goto_addr_param
                    | COMMA <: any @Addr @hold @goto_addr;
-addr_uri          := ( uri - ";" ) %AddrUri addr_uri_end;
+addr_uri          := ( scheme ":" ( uric - [;,?] )+ ) %AddrUri addr_uri_end;
 addr              := [<\"] @AddrNew @hold @goto_addr_angled
                    | unquoted_string >mark "<" @AddrNew @backtrack @goto_addr_angled
                    | scheme >mark ":" @AddrNew @backtrack @goto_addr_uri;
-- 
2.43.0


From 35b03a7f3669763104736844f28085b8fc8f64ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:37 +0000
Subject: [PATCH 41/58] fix: RTP sessions could not be bound to an IPv6 address
 without a port

---
 rtp/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/session.go b/rtp/session.go
index b97c016..50d0d2a 100644
--- a/rtp/session.go
+++ b/rtp/session.go
@@ -258,7 +258,7 @@ func payload(phdr *Header, packet []byte) []byte {
 }
 
 func Listen(host string) (sock net.PacketConn, err error) {
-	if strings.Contains(host, ":") {
+	if strings.Contains(host, ":") && net.ParseIP(host) == nil {
 		return net.ListenPacket("udp", host)
 	}
 	for i := 0; i < rtpBindMaxAttempts; i++ {
-- 
2.43.0


From f4d6ffe6ae239750fe2b99fe4faa6941e92fdeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 42/58] fix: numbers out of range wrapped around instead of
 making a message malformed

---
 sip/msg_parse.go | 796 +++++++++++++++++++++++++----------------------
 sip/msg_parse.rl |   2 +
 sip/sip.rl       |  24 ++
 sip/uri_parse.go | 210 +++++++------
 sip/uri_parse.rl |   3 +
 5 files changed, 557 insertions(+), 478 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index cbf02f4..846c243 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -48,6 +48,8 @@ const msg_en_main int = 1
 
 //line msg_parse.rl:27
 
+const maxInt = int(^uint(0) >> 1)
+
 // ParseMsg turns a SIP message byte slice into a data structure.
 func ParseMsg(data []byte) (msg *Msg, err error) {
 	if data == nil {
@@ -72,16 +74,16 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 	var addr *Addr
 
 	
-//line msg_parse.rl:52
+//line msg_parse.rl:54
 	
-//line msg_parse.go:71
+//line msg_parse.go:73
 	{
 	cs = msg_start
 	}
 
-//line msg_parse.rl:53
+//line msg_parse.rl:55
 	
-//line msg_parse.go:76
+//line msg_parse.go:78
 	{
 	var _widec int16
 	if p == pe {
@@ -1645,14 +1647,14 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		}
 		goto st0
 tr398:
-//line sip.rl:171
+//line sip.rl:180
 
 	p = ( mark) - 1
 
 	{goto st263 }
 
 	goto st0
-//line msg_parse.go:1647
+//line msg_parse.go:1649
 st_case_0:
 	st0:
 		cs = 0
@@ -1668,7 +1670,7 @@ tr0:
 			goto _test_eof2
 		}
 	st_case_2:
-//line msg_parse.go:1663
+//line msg_parse.go:1665
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -1715,7 +1717,7 @@ tr3:
 			goto _test_eof3
 		}
 	st_case_3:
-//line msg_parse.go:1710
+//line msg_parse.go:1712
 		if data[p] == 32 {
 			goto st0
 		}
@@ -1731,13 +1733,13 @@ tr5:
 			goto _test_eof4
 		}
 	st_case_4:
-//line msg_parse.go:1726
+//line msg_parse.go:1728
 		if data[p] == 32 {
 			goto tr7
 		}
 		goto st4
 tr7:
-//line sip.rl:124
+//line sip.rl:130
 
 	msg.Request, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -1748,7 +1750,7 @@ tr7:
 			goto _test_eof5
 		}
 	st_case_5:
-//line msg_parse.go:1743
+//line msg_parse.go:1745
 		if data[p] == 83 {
 			goto st6
 		}
@@ -1792,6 +1794,9 @@ tr7:
 tr12:
 //line sip.rl:116
 
+	if int(msg.VersionMajor) * 10 + int(data[p] - 0x30) > 255 {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.VersionMajor = msg.VersionMajor * 10 + (data[p] - 0x30)
 
 	goto st10
@@ -1800,7 +1805,7 @@ tr12:
 			goto _test_eof10
 		}
 	st_case_10:
-//line msg_parse.go:1795
+//line msg_parse.go:1800
 		if data[p] == 46 {
 			goto st11
 		}
@@ -1818,8 +1823,11 @@ tr12:
 		}
 		goto st0
 tr14:
-//line sip.rl:120
+//line sip.rl:123
 
+	if int(msg.VersionMinor) * 10 + int(data[p] - 0x30) > 255 {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.VersionMinor = msg.VersionMinor * 10 + (data[p] - 0x30)
 
 	goto st12
@@ -1828,7 +1836,7 @@ tr14:
 			goto _test_eof12
 		}
 	st_case_12:
-//line msg_parse.go:1823
+//line msg_parse.go:1831
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -1848,13 +1856,13 @@ tr35:
 
 	amt = 0
 
-//line sip.rl:133
+//line sip.rl:139
 
 	msg.Phrase = string(buf[0:amt])
 
 	goto st13
 tr43:
-//line sip.rl:133
+//line sip.rl:139
 
 	msg.Phrase = string(buf[0:amt])
 
@@ -1864,13 +1872,13 @@ tr43:
 			goto _test_eof13
 		}
 	st_case_13:
-//line msg_parse.go:1859
+//line msg_parse.go:1867
 		if data[p] == 10 {
 			goto tr16
 		}
 		goto st0
 tr16:
-//line sip.rl:257
+//line sip.rl:281
  {goto st270 } 
 	goto st748
 	st748:
@@ -1878,7 +1886,7 @@ tr16:
 			goto _test_eof748
 		}
 	st_case_748:
-//line msg_parse.go:1873
+//line msg_parse.go:1881
 		goto st0
 tr2:
 //line sip.rl:80
@@ -1891,7 +1899,7 @@ tr2:
 			goto _test_eof14
 		}
 	st_case_14:
-//line msg_parse.go:1886
+//line msg_parse.go:1894
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -2020,6 +2028,9 @@ tr2:
 tr20:
 //line sip.rl:116
 
+	if int(msg.VersionMajor) * 10 + int(data[p] - 0x30) > 255 {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.VersionMajor = msg.VersionMajor * 10 + (data[p] - 0x30)
 
 	goto st18
@@ -2028,7 +2039,7 @@ tr20:
 			goto _test_eof18
 		}
 	st_case_18:
-//line msg_parse.go:2023
+//line msg_parse.go:2034
 		if data[p] == 46 {
 			goto st19
 		}
@@ -2046,8 +2057,11 @@ tr20:
 		}
 		goto st0
 tr22:
-//line sip.rl:120
+//line sip.rl:123
 
+	if int(msg.VersionMinor) * 10 + int(data[p] - 0x30) > 255 {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.VersionMinor = msg.VersionMinor * 10 + (data[p] - 0x30)
 
 	goto st20
@@ -2056,7 +2070,7 @@ tr22:
 			goto _test_eof20
 		}
 	st_case_20:
-//line msg_parse.go:2051
+//line msg_parse.go:2065
 		if data[p] == 32 {
 			goto st21
 		}
@@ -2074,7 +2088,7 @@ tr22:
 		}
 		goto st0
 tr24:
-//line sip.rl:129
+//line sip.rl:135
 
 	msg.Status = msg.Status * 10 + (int(data[p]) - 0x30)
 
@@ -2084,13 +2098,13 @@ tr24:
 			goto _test_eof22
 		}
 	st_case_22:
-//line msg_parse.go:2079
+//line msg_parse.go:2093
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr25
 		}
 		goto st0
 tr25:
-//line sip.rl:129
+//line sip.rl:135
 
 	msg.Status = msg.Status * 10 + (int(data[p]) - 0x30)
 
@@ -2100,13 +2114,13 @@ tr25:
 			goto _test_eof23
 		}
 	st_case_23:
-//line msg_parse.go:2095
+//line msg_parse.go:2109
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr26
 		}
 		goto st0
 tr26:
-//line sip.rl:129
+//line sip.rl:135
 
 	msg.Status = msg.Status * 10 + (int(data[p]) - 0x30)
 
@@ -2116,7 +2130,7 @@ tr26:
 			goto _test_eof24
 		}
 	st_case_24:
-//line msg_parse.go:2111
+//line msg_parse.go:2125
 		if data[p] == 32 {
 			goto st25
 		}
@@ -2219,7 +2233,7 @@ tr45:
 			goto _test_eof26
 		}
 	st_case_26:
-//line msg_parse.go:2214
+//line msg_parse.go:2228
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2293,7 +2307,7 @@ tr29:
 			goto _test_eof27
 		}
 	st_case_27:
-//line msg_parse.go:2288
+//line msg_parse.go:2302
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2318,7 +2332,7 @@ tr44:
 			goto _test_eof28
 		}
 	st_case_28:
-//line msg_parse.go:2313
+//line msg_parse.go:2327
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2355,7 +2369,7 @@ tr38:
 			goto _test_eof29
 		}
 	st_case_29:
-//line msg_parse.go:2350
+//line msg_parse.go:2364
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr36
 		}
@@ -2383,7 +2397,7 @@ tr39:
 			goto _test_eof30
 		}
 	st_case_30:
-//line msg_parse.go:2378
+//line msg_parse.go:2392
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr38
 		}
@@ -2411,7 +2425,7 @@ tr40:
 			goto _test_eof31
 		}
 	st_case_31:
-//line msg_parse.go:2406
+//line msg_parse.go:2420
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr39
 		}
@@ -2439,7 +2453,7 @@ tr41:
 			goto _test_eof32
 		}
 	st_case_32:
-//line msg_parse.go:2434
+//line msg_parse.go:2448
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr40
 		}
@@ -2467,7 +2481,7 @@ tr42:
 			goto _test_eof33
 		}
 	st_case_33:
-//line msg_parse.go:2462
+//line msg_parse.go:2476
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr41
 		}
@@ -2521,7 +2535,7 @@ tr46:
 			goto _test_eof35
 		}
 	st_case_35:
-//line msg_parse.go:2516
+//line msg_parse.go:2530
 		switch data[p] {
 		case 33:
 			goto st35
@@ -2646,7 +2660,7 @@ tr46:
 		}
 		goto st0
 tr50:
-//line sip.rl:228
+//line sip.rl:240
 
 	ctype = string(data[mark:p])
 
@@ -2656,7 +2670,7 @@ tr50:
 			goto _test_eof38
 		}
 	st_case_38:
-//line msg_parse.go:2651
+//line msg_parse.go:2665
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2676,7 +2690,7 @@ tr50:
 		}
 		goto st0
 tr51:
-//line sip.rl:228
+//line sip.rl:240
 
 	ctype = string(data[mark:p])
 
@@ -2686,7 +2700,7 @@ tr51:
 			goto _test_eof39
 		}
 	st_case_39:
-//line msg_parse.go:2681
+//line msg_parse.go:2695
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2918,7 +2932,7 @@ tr51:
 		}
 		goto st0
 tr52:
-//line sip.rl:228
+//line sip.rl:240
 
 	ctype = string(data[mark:p])
 
@@ -2928,13 +2942,13 @@ tr52:
 			goto _test_eof44
 		}
 	st_case_44:
-//line msg_parse.go:2923
+//line msg_parse.go:2937
 		if data[p] == 10 {
 			goto tr66
 		}
 		goto st0
 tr66:
-//line sip.rl:257
+//line sip.rl:281
  {goto st270 } 
 	goto st749
 	st749:
@@ -2942,10 +2956,10 @@ tr66:
 			goto _test_eof749
 		}
 	st_case_749:
-//line msg_parse.go:2937
+//line msg_parse.go:2951
 		goto st0
 tr53:
-//line sip.rl:228
+//line sip.rl:240
 
 	ctype = string(data[mark:p])
 
@@ -2955,7 +2969,7 @@ tr53:
 			goto _test_eof45
 		}
 	st_case_45:
-//line msg_parse.go:2950
+//line msg_parse.go:2964
 		if data[p] == 10 {
 			goto st46
 		}
@@ -3058,7 +3072,7 @@ tr78:
 			goto _test_eof49
 		}
 	st_case_49:
-//line msg_parse.go:3053
+//line msg_parse.go:3067
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3114,7 +3128,7 @@ tr70:
 			goto _test_eof50
 		}
 	st_case_50:
-//line msg_parse.go:3109
+//line msg_parse.go:3123
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3146,7 +3160,7 @@ tr71:
 			goto _test_eof51
 		}
 	st_case_51:
-//line msg_parse.go:3141
+//line msg_parse.go:3155
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -3183,7 +3197,7 @@ tr81:
 			goto _test_eof52
 		}
 	st_case_52:
-//line msg_parse.go:3178
+//line msg_parse.go:3192
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr78
 		}
@@ -3211,7 +3225,7 @@ tr82:
 			goto _test_eof53
 		}
 	st_case_53:
-//line msg_parse.go:3206
+//line msg_parse.go:3220
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr81
 		}
@@ -3239,7 +3253,7 @@ tr83:
 			goto _test_eof54
 		}
 	st_case_54:
-//line msg_parse.go:3234
+//line msg_parse.go:3248
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr82
 		}
@@ -3267,7 +3281,7 @@ tr84:
 			goto _test_eof55
 		}
 	st_case_55:
-//line msg_parse.go:3262
+//line msg_parse.go:3276
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr83
 		}
@@ -3295,7 +3309,7 @@ tr85:
 			goto _test_eof56
 		}
 	st_case_56:
-//line msg_parse.go:3290
+//line msg_parse.go:3304
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr84
 		}
@@ -3323,7 +3337,7 @@ tr86:
 			goto _test_eof57
 		}
 	st_case_57:
-//line msg_parse.go:3318
+//line msg_parse.go:3332
 		if data[p] == 10 {
 			goto tr87
 		}
@@ -3340,7 +3354,7 @@ tr87:
 			goto _test_eof58
 		}
 	st_case_58:
-//line msg_parse.go:3335
+//line msg_parse.go:3349
 		switch data[p] {
 		case 9:
 			goto tr78
@@ -3564,7 +3578,7 @@ tr94:
 			goto _test_eof69
 		}
 	st_case_69:
-//line msg_parse.go:3559
+//line msg_parse.go:3573
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3615,7 +3629,7 @@ tr94:
 		}
 		goto st0
 tr95:
-//line sip.rl:176
+//line sip.rl:185
 
 	name = string(data[mark:p])
 
@@ -3625,7 +3639,7 @@ tr95:
 			goto _test_eof70
 		}
 	st_case_70:
-//line msg_parse.go:3620
+//line msg_parse.go:3634
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3649,7 +3663,7 @@ tr95:
 		}
 		goto st0
 tr97:
-//line sip.rl:176
+//line sip.rl:185
 
 	name = string(data[mark:p])
 
@@ -3659,7 +3673,7 @@ tr97:
 			goto _test_eof71
 		}
 	st_case_71:
-//line msg_parse.go:3654
+//line msg_parse.go:3668
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3687,17 +3701,17 @@ tr97:
 		}
 		goto st0
 tr107:
-//line sip.rl:167
+//line sip.rl:176
 
 	via.Param = &Param{name, string(buf[0:amt]), via.Param}
 
-//line sip.rl:141
+//line sip.rl:147
 
 	*viap = via
 	viap = &via.Next
 	via = nil
 
-//line sip.rl:137
+//line sip.rl:143
 
 	via = new(Via)
 
@@ -3706,11 +3720,11 @@ tr107:
 	p--
 
 
-//line sip.rl:259
+//line sip.rl:283
  {goto st103 } 
 	goto st750
 tr111:
-//line sip.rl:167
+//line sip.rl:176
 
 	via.Param = &Param{name, string(buf[0:amt]), via.Param}
 
@@ -3723,21 +3737,21 @@ tr111:
 
 	amt = 0
 
-//line sip.rl:260
+//line sip.rl:284
  {goto st68 } 
 	goto st750
 tr123:
-//line sip.rl:167
+//line sip.rl:176
 
 	via.Param = &Param{name, string(buf[0:amt]), via.Param}
 
-//line sip.rl:141
+//line sip.rl:147
 
 	*viap = via
 	viap = &via.Next
 	via = nil
 
-//line sip.rl:257
+//line sip.rl:281
  {goto st270 } 
 	goto st750
 	st750:
@@ -3745,7 +3759,7 @@ tr123:
 			goto _test_eof750
 		}
 	st_case_750:
-//line msg_parse.go:3740
+//line msg_parse.go:3754
 		goto st0
 	st72:
 		if p++; p == pe {
@@ -3781,7 +3795,7 @@ tr123:
 		}
 		goto tr107
 tr98:
-//line sip.rl:176
+//line sip.rl:185
 
 	name = string(data[mark:p])
 
@@ -3791,7 +3805,7 @@ tr98:
 			goto _test_eof75
 		}
 	st_case_75:
-//line msg_parse.go:3786
+//line msg_parse.go:3800
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3852,7 +3866,7 @@ tr98:
 		}
 		goto tr111
 tr99:
-//line sip.rl:176
+//line sip.rl:185
 
 	name = string(data[mark:p])
 
@@ -3862,7 +3876,7 @@ tr99:
 			goto _test_eof79
 		}
 	st_case_79:
-//line msg_parse.go:3857
+//line msg_parse.go:3871
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3925,7 +3939,7 @@ tr115:
 			goto _test_eof80
 		}
 	st_case_80:
-//line msg_parse.go:3920
+//line msg_parse.go:3934
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4038,7 +4052,7 @@ tr115:
 		}
 		goto st0
 tr100:
-//line sip.rl:176
+//line sip.rl:185
 
 	name = string(data[mark:p])
 
@@ -4048,7 +4062,7 @@ tr100:
 			goto _test_eof85
 		}
 	st_case_85:
-//line msg_parse.go:4043
+//line msg_parse.go:4057
 		if data[p] == 10 {
 			goto tr123
 		}
@@ -4125,7 +4139,7 @@ tr133:
 			goto _test_eof87
 		}
 	st_case_87:
-//line msg_parse.go:4120
+//line msg_parse.go:4134
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4181,7 +4195,7 @@ tr125:
 			goto _test_eof88
 		}
 	st_case_88:
-//line msg_parse.go:4176
+//line msg_parse.go:4190
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4215,7 +4229,7 @@ tr126:
 			goto _test_eof89
 		}
 	st_case_89:
-//line msg_parse.go:4210
+//line msg_parse.go:4224
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -4252,7 +4266,7 @@ tr136:
 			goto _test_eof90
 		}
 	st_case_90:
-//line msg_parse.go:4247
+//line msg_parse.go:4261
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr133
 		}
@@ -4280,7 +4294,7 @@ tr137:
 			goto _test_eof91
 		}
 	st_case_91:
-//line msg_parse.go:4275
+//line msg_parse.go:4289
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr136
 		}
@@ -4308,7 +4322,7 @@ tr138:
 			goto _test_eof92
 		}
 	st_case_92:
-//line msg_parse.go:4303
+//line msg_parse.go:4317
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr137
 		}
@@ -4336,7 +4350,7 @@ tr139:
 			goto _test_eof93
 		}
 	st_case_93:
-//line msg_parse.go:4331
+//line msg_parse.go:4345
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr138
 		}
@@ -4364,7 +4378,7 @@ tr140:
 			goto _test_eof94
 		}
 	st_case_94:
-//line msg_parse.go:4359
+//line msg_parse.go:4373
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr139
 		}
@@ -4392,7 +4406,7 @@ tr141:
 			goto _test_eof95
 		}
 	st_case_95:
-//line msg_parse.go:4387
+//line msg_parse.go:4401
 		if data[p] == 10 {
 			goto tr142
 		}
@@ -4409,7 +4423,7 @@ tr142:
 			goto _test_eof96
 		}
 	st_case_96:
-//line msg_parse.go:4404
+//line msg_parse.go:4418
 		switch data[p] {
 		case 9:
 			goto tr133
@@ -4485,7 +4499,7 @@ tr142:
 		}
 		goto st0
 tr101:
-//line sip.rl:176
+//line sip.rl:185
 
 	name = string(data[mark:p])
 
@@ -4495,7 +4509,7 @@ tr101:
 			goto _test_eof100
 		}
 	st_case_100:
-//line msg_parse.go:4490
+//line msg_parse.go:4504
 		if data[p] == 10 {
 			goto st101
 		}
@@ -4579,7 +4593,7 @@ tr147:
 			goto _test_eof104
 		}
 	st_case_104:
-//line msg_parse.go:4574
+//line msg_parse.go:4588
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4624,7 +4638,7 @@ tr147:
 		}
 		goto st0
 tr148:
-//line sip.rl:147
+//line sip.rl:153
 
 	via.Protocol = string(data[mark:p])
 
@@ -4634,7 +4648,7 @@ tr148:
 			goto _test_eof105
 		}
 	st_case_105:
-//line msg_parse.go:4629
+//line msg_parse.go:4643
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4654,7 +4668,7 @@ tr148:
 		}
 		goto st0
 tr150:
-//line sip.rl:147
+//line sip.rl:153
 
 	via.Protocol = string(data[mark:p])
 
@@ -4664,7 +4678,7 @@ tr150:
 			goto _test_eof106
 		}
 	st_case_106:
-//line msg_parse.go:4659
+//line msg_parse.go:4673
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4722,7 +4736,7 @@ tr155:
 			goto _test_eof107
 		}
 	st_case_107:
-//line msg_parse.go:4717
+//line msg_parse.go:4731
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4767,7 +4781,7 @@ tr155:
 		}
 		goto st0
 tr157:
-//line sip.rl:151
+//line sip.rl:157
 
 	via.Version = string(data[mark:p])
 
@@ -4777,7 +4791,7 @@ tr157:
 			goto _test_eof108
 		}
 	st_case_108:
-//line msg_parse.go:4772
+//line msg_parse.go:4786
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4797,7 +4811,7 @@ tr157:
 		}
 		goto st0
 tr159:
-//line sip.rl:151
+//line sip.rl:157
 
 	via.Version = string(data[mark:p])
 
@@ -4807,7 +4821,7 @@ tr159:
 			goto _test_eof109
 		}
 	st_case_109:
-//line msg_parse.go:4802
+//line msg_parse.go:4816
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4865,7 +4879,7 @@ tr164:
 			goto _test_eof110
 		}
 	st_case_110:
-//line msg_parse.go:4860
+//line msg_parse.go:4874
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4913,7 +4927,7 @@ tr164:
 		}
 		goto st0
 tr166:
-//line sip.rl:155
+//line sip.rl:161
 
 	via.Transport = string(data[mark:p])
 
@@ -4923,7 +4937,7 @@ tr166:
 			goto _test_eof111
 		}
 	st_case_111:
-//line msg_parse.go:4918
+//line msg_parse.go:4932
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4970,7 +4984,7 @@ tr170:
 			goto _test_eof112
 		}
 	st_case_112:
-//line msg_parse.go:4965
+//line msg_parse.go:4979
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5013,7 +5027,7 @@ tr170:
 		}
 		goto st0
 tr173:
-//line sip.rl:159
+//line sip.rl:165
 
 	via.Host = string(data[mark:p])
 
@@ -5023,7 +5037,7 @@ tr173:
 			goto _test_eof113
 		}
 	st_case_113:
-//line msg_parse.go:5018
+//line msg_parse.go:5032
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5047,7 +5061,7 @@ tr173:
 		}
 		goto st0
 tr174:
-//line sip.rl:159
+//line sip.rl:165
 
 	via.Host = string(data[mark:p])
 
@@ -5057,7 +5071,7 @@ tr174:
 			goto _test_eof114
 		}
 	st_case_114:
-//line msg_parse.go:5052
+//line msg_parse.go:5066
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5085,13 +5099,13 @@ tr174:
 		}
 		goto st0
 tr185:
-//line sip.rl:141
+//line sip.rl:147
 
 	*viap = via
 	viap = &via.Next
 	via = nil
 
-//line sip.rl:137
+//line sip.rl:143
 
 	via = new(Via)
 
@@ -5100,7 +5114,7 @@ tr185:
 	p--
 
 
-//line sip.rl:259
+//line sip.rl:283
  {goto st103 } 
 	goto st751
 tr194:
@@ -5113,17 +5127,17 @@ tr194:
 
 	amt = 0
 
-//line sip.rl:260
+//line sip.rl:284
  {goto st68 } 
 	goto st751
 tr200:
-//line sip.rl:141
+//line sip.rl:147
 
 	*viap = via
 	viap = &via.Next
 	via = nil
 
-//line sip.rl:257
+//line sip.rl:281
  {goto st270 } 
 	goto st751
 	st751:
@@ -5131,7 +5145,7 @@ tr200:
 			goto _test_eof751
 		}
 	st_case_751:
-//line msg_parse.go:5126
+//line msg_parse.go:5140
 		goto st0
 	st115:
 		if p++; p == pe {
@@ -5167,7 +5181,7 @@ tr200:
 		}
 		goto tr185
 tr176:
-//line sip.rl:159
+//line sip.rl:165
 
 	via.Host = string(data[mark:p])
 
@@ -5177,7 +5191,7 @@ tr176:
 			goto _test_eof118
 		}
 	st_case_118:
-//line msg_parse.go:5172
+//line msg_parse.go:5186
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5198,8 +5212,11 @@ tr176:
 		}
 		goto st0
 tr189:
-//line sip.rl:163
+//line sip.rl:169
 
+	if int(via.Port) * 10 + int(data[p] - 0x30) > 65535 {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	via.Port = via.Port * 10 + (uint16(data[p]) - 0x30)
 
 	goto st119
@@ -5208,7 +5225,7 @@ tr189:
 			goto _test_eof119
 		}
 	st_case_119:
-//line msg_parse.go:5203
+//line msg_parse.go:5220
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5260,7 +5277,7 @@ tr189:
 		}
 		goto st0
 tr177:
-//line sip.rl:159
+//line sip.rl:165
 
 	via.Host = string(data[mark:p])
 
@@ -5270,7 +5287,7 @@ tr177:
 			goto _test_eof121
 		}
 	st_case_121:
-//line msg_parse.go:5265
+//line msg_parse.go:5282
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5368,7 +5385,7 @@ tr177:
 		}
 		goto st0
 tr178:
-//line sip.rl:159
+//line sip.rl:165
 
 	via.Host = string(data[mark:p])
 
@@ -5378,7 +5395,7 @@ tr178:
 			goto _test_eof128
 		}
 	st_case_128:
-//line msg_parse.go:5373
+//line msg_parse.go:5390
 		if data[p] == 10 {
 			goto tr200
 		}
@@ -5420,7 +5437,7 @@ tr178:
 		}
 		goto st0
 tr179:
-//line sip.rl:159
+//line sip.rl:165
 
 	via.Host = string(data[mark:p])
 
@@ -5430,7 +5447,7 @@ tr179:
 			goto _test_eof132
 		}
 	st_case_132:
-//line msg_parse.go:5425
+//line msg_parse.go:5442
 		if data[p] == 10 {
 			goto st133
 		}
@@ -5497,7 +5514,7 @@ tr205:
 			goto _test_eof136
 		}
 	st_case_136:
-//line msg_parse.go:5492
+//line msg_parse.go:5509
 		switch data[p] {
 		case 46:
 			goto st136
@@ -5518,7 +5535,7 @@ tr205:
 		}
 		goto st0
 tr207:
-//line sip.rl:159
+//line sip.rl:165
 
 	via.Host = string(data[mark:p])
 
@@ -5528,7 +5545,7 @@ tr207:
 			goto _test_eof137
 		}
 	st_case_137:
-//line msg_parse.go:5523
+//line msg_parse.go:5540
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5554,7 +5571,7 @@ tr207:
 		}
 		goto st0
 tr168:
-//line sip.rl:155
+//line sip.rl:161
 
 	via.Transport = string(data[mark:p])
 
@@ -5564,7 +5581,7 @@ tr168:
 			goto _test_eof138
 		}
 	st_case_138:
-//line msg_parse.go:5559
+//line msg_parse.go:5576
 		if data[p] == 10 {
 			goto st139
 		}
@@ -5676,7 +5693,7 @@ tr168:
 		}
 		goto st0
 tr160:
-//line sip.rl:151
+//line sip.rl:157
 
 	via.Version = string(data[mark:p])
 
@@ -5686,7 +5703,7 @@ tr160:
 			goto _test_eof144
 		}
 	st_case_144:
-//line msg_parse.go:5681
+//line msg_parse.go:5698
 		if data[p] == 10 {
 			goto st145
 		}
@@ -5781,7 +5798,7 @@ tr160:
 		}
 		goto st0
 tr151:
-//line sip.rl:147
+//line sip.rl:153
 
 	via.Protocol = string(data[mark:p])
 
@@ -5791,7 +5808,7 @@ tr151:
 			goto _test_eof150
 		}
 	st_case_150:
-//line msg_parse.go:5786
+//line msg_parse.go:5803
 		if data[p] == 10 {
 			goto st151
 		}
@@ -5875,7 +5892,7 @@ tr218:
 			goto _test_eof154
 		}
 	st_case_154:
-//line msg_parse.go:5870
+//line msg_parse.go:5887
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5926,7 +5943,7 @@ tr218:
 		}
 		goto st0
 tr219:
-//line sip.rl:176
+//line sip.rl:185
 
 	name = string(data[mark:p])
 
@@ -5936,7 +5953,7 @@ tr219:
 			goto _test_eof155
 		}
 	st_case_155:
-//line msg_parse.go:5931
+//line msg_parse.go:5948
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5960,7 +5977,7 @@ tr219:
 		}
 		goto st0
 tr221:
-//line sip.rl:176
+//line sip.rl:185
 
 	name = string(data[mark:p])
 
@@ -5970,7 +5987,7 @@ tr221:
 			goto _test_eof156
 		}
 	st_case_156:
-//line msg_parse.go:5965
+//line msg_parse.go:5982
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5998,11 +6015,11 @@ tr221:
 		}
 		goto st0
 tr231:
-//line sip.rl:210
+//line sip.rl:219
 
 	addr.Param = &Param{name, string(buf[0:amt]), addr.Param}
 
-//line sip.rl:214
+//line sip.rl:223
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -6013,11 +6030,11 @@ tr231:
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:276
  {goto st246 } 
 	goto st752
 tr235:
-//line sip.rl:210
+//line sip.rl:219
 
 	addr.Param = &Param{name, string(buf[0:amt]), addr.Param}
 
@@ -6026,21 +6043,21 @@ tr235:
 	p--
 
 
-//line sip.rl:254
+//line sip.rl:278
  {goto st153 } 
 	goto st752
 tr247:
-//line sip.rl:210
+//line sip.rl:219
 
 	addr.Param = &Param{name, string(buf[0:amt]), addr.Param}
 
-//line sip.rl:214
+//line sip.rl:223
 
 	*addrp = addr
 	addrp = &addr.Next
 	addr = nil
 
-//line sip.rl:257
+//line sip.rl:281
  {goto st270 } 
 	goto st752
 	st752:
@@ -6048,7 +6065,7 @@ tr247:
 			goto _test_eof752
 		}
 	st_case_752:
-//line msg_parse.go:6043
+//line msg_parse.go:6060
 		goto st0
 	st157:
 		if p++; p == pe {
@@ -6084,7 +6101,7 @@ tr247:
 		}
 		goto tr231
 tr222:
-//line sip.rl:176
+//line sip.rl:185
 
 	name = string(data[mark:p])
 
@@ -6094,7 +6111,7 @@ tr222:
 			goto _test_eof160
 		}
 	st_case_160:
-//line msg_parse.go:6089
+//line msg_parse.go:6106
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6155,7 +6172,7 @@ tr222:
 		}
 		goto tr235
 tr223:
-//line sip.rl:176
+//line sip.rl:185
 
 	name = string(data[mark:p])
 
@@ -6165,7 +6182,7 @@ tr223:
 			goto _test_eof164
 		}
 	st_case_164:
-//line msg_parse.go:6160
+//line msg_parse.go:6177
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6228,7 +6245,7 @@ tr239:
 			goto _test_eof165
 		}
 	st_case_165:
-//line msg_parse.go:6223
+//line msg_parse.go:6240
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6341,7 +6358,7 @@ tr239:
 		}
 		goto st0
 tr224:
-//line sip.rl:176
+//line sip.rl:185
 
 	name = string(data[mark:p])
 
@@ -6351,7 +6368,7 @@ tr224:
 			goto _test_eof170
 		}
 	st_case_170:
-//line msg_parse.go:6346
+//line msg_parse.go:6363
 		if data[p] == 10 {
 			goto tr247
 		}
@@ -6428,7 +6445,7 @@ tr257:
 			goto _test_eof172
 		}
 	st_case_172:
-//line msg_parse.go:6423
+//line msg_parse.go:6440
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6484,7 +6501,7 @@ tr249:
 			goto _test_eof173
 		}
 	st_case_173:
-//line msg_parse.go:6479
+//line msg_parse.go:6496
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6518,7 +6535,7 @@ tr250:
 			goto _test_eof174
 		}
 	st_case_174:
-//line msg_parse.go:6513
+//line msg_parse.go:6530
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -6555,7 +6572,7 @@ tr260:
 			goto _test_eof175
 		}
 	st_case_175:
-//line msg_parse.go:6550
+//line msg_parse.go:6567
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr257
 		}
@@ -6583,7 +6600,7 @@ tr261:
 			goto _test_eof176
 		}
 	st_case_176:
-//line msg_parse.go:6578
+//line msg_parse.go:6595
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr260
 		}
@@ -6611,7 +6628,7 @@ tr262:
 			goto _test_eof177
 		}
 	st_case_177:
-//line msg_parse.go:6606
+//line msg_parse.go:6623
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr261
 		}
@@ -6639,7 +6656,7 @@ tr263:
 			goto _test_eof178
 		}
 	st_case_178:
-//line msg_parse.go:6634
+//line msg_parse.go:6651
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr262
 		}
@@ -6667,7 +6684,7 @@ tr264:
 			goto _test_eof179
 		}
 	st_case_179:
-//line msg_parse.go:6662
+//line msg_parse.go:6679
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr263
 		}
@@ -6695,7 +6712,7 @@ tr265:
 			goto _test_eof180
 		}
 	st_case_180:
-//line msg_parse.go:6690
+//line msg_parse.go:6707
 		if data[p] == 10 {
 			goto tr266
 		}
@@ -6712,7 +6729,7 @@ tr266:
 			goto _test_eof181
 		}
 	st_case_181:
-//line msg_parse.go:6707
+//line msg_parse.go:6724
 		switch data[p] {
 		case 9:
 			goto tr257
@@ -6788,7 +6805,7 @@ tr266:
 		}
 		goto st0
 tr225:
-//line sip.rl:176
+//line sip.rl:185
 
 	name = string(data[mark:p])
 
@@ -6798,7 +6815,7 @@ tr225:
 			goto _test_eof185
 		}
 	st_case_185:
-//line msg_parse.go:6793
+//line msg_parse.go:6810
 		if data[p] == 10 {
 			goto st186
 		}
@@ -6889,7 +6906,7 @@ tr225:
 		}
 		goto st0
 tr330:
-//line sip.rl:193
+//line sip.rl:202
 
 	addr.Display = string(buf[0:amt])
 
@@ -6899,7 +6916,7 @@ tr330:
 			goto _test_eof189
 		}
 	st_case_189:
-//line msg_parse.go:6894
+//line msg_parse.go:6911
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6919,7 +6936,7 @@ tr330:
 		}
 		goto st0
 tr306:
-//line sip.rl:197
+//line sip.rl:206
 {
 	end := p
 	for end > mark && whitespacec(data[end - 1]) {
@@ -6929,7 +6946,7 @@ tr306:
 }
 	goto st190
 tr331:
-//line sip.rl:193
+//line sip.rl:202
 
 	addr.Display = string(buf[0:amt])
 
@@ -6939,7 +6956,7 @@ tr331:
 			goto _test_eof190
 		}
 	st_case_190:
-//line msg_parse.go:6934
+//line msg_parse.go:6951
 		switch {
 		case data[p] > 90:
 			if 97 <= data[p] && data[p] <= 122 {
@@ -6960,7 +6977,7 @@ tr276:
 			goto _test_eof191
 		}
 	st_case_191:
-//line msg_parse.go:6955
+//line msg_parse.go:6972
 		switch data[p] {
 		case 43:
 			goto st191
@@ -7046,7 +7063,7 @@ tr276:
 		}
 		goto st0
 tr280:
-//line sip.rl:205
+//line sip.rl:214
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -7057,7 +7074,7 @@ tr280:
 			goto _test_eof194
 		}
 	st_case_194:
-//line msg_parse.go:7052
+//line msg_parse.go:7069
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7112,7 +7129,7 @@ tr280:
 		}
 		goto st0
 tr286:
-//line sip.rl:214
+//line sip.rl:223
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -7123,7 +7140,7 @@ tr286:
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:276
  {goto st246 } 
 	goto st753
 tr290:
@@ -7132,17 +7149,17 @@ tr290:
 	p--
 
 
-//line sip.rl:254
+//line sip.rl:278
  {goto st153 } 
 	goto st753
 tr294:
-//line sip.rl:214
+//line sip.rl:223
 
 	*addrp = addr
 	addrp = &addr.Next
 	addr = nil
 
-//line sip.rl:257
+//line sip.rl:281
  {goto st270 } 
 	goto st753
 	st753:
@@ -7150,7 +7167,7 @@ tr294:
 			goto _test_eof753
 		}
 	st_case_753:
-//line msg_parse.go:7145
+//line msg_parse.go:7162
 		goto st0
 	st196:
 		if p++; p == pe {
@@ -7344,7 +7361,7 @@ tr294:
 		}
 		goto st0
 tr311:
-//line sip.rl:197
+//line sip.rl:206
 {
 	end := p
 	for end > mark && whitespacec(data[end - 1]) {
@@ -7354,7 +7371,7 @@ tr311:
 }
 	goto st210
 tr332:
-//line sip.rl:193
+//line sip.rl:202
 
 	addr.Display = string(buf[0:amt])
 
@@ -7364,7 +7381,7 @@ tr332:
 			goto _test_eof210
 		}
 	st_case_210:
-//line msg_parse.go:7359
+//line msg_parse.go:7376
 		if data[p] == 10 {
 			goto st211
 		}
@@ -7406,7 +7423,7 @@ tr272:
 			goto _test_eof213
 		}
 	st_case_213:
-//line msg_parse.go:7401
+//line msg_parse.go:7418
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7454,7 +7471,7 @@ tr272:
 		}
 		goto st0
 tr305:
-//line sip.rl:197
+//line sip.rl:206
 {
 	end := p
 	for end > mark && whitespacec(data[end - 1]) {
@@ -7468,7 +7485,7 @@ tr305:
 			goto _test_eof214
 		}
 	st_case_214:
-//line msg_parse.go:7463
+//line msg_parse.go:7480
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7518,7 +7535,7 @@ tr305:
 		}
 		goto st0
 tr307:
-//line sip.rl:197
+//line sip.rl:206
 {
 	end := p
 	for end > mark && whitespacec(data[end - 1]) {
@@ -7532,7 +7549,7 @@ tr307:
 			goto _test_eof215
 		}
 	st_case_215:
-//line msg_parse.go:7527
+//line msg_parse.go:7544
 		if data[p] == 10 {
 			goto st216
 		}
@@ -7550,7 +7567,7 @@ tr307:
 		}
 		goto st0
 tr310:
-//line sip.rl:197
+//line sip.rl:206
 {
 	end := p
 	for end > mark && whitespacec(data[end - 1]) {
@@ -7564,7 +7581,7 @@ tr310:
 			goto _test_eof217
 		}
 	st_case_217:
-//line msg_parse.go:7559
+//line msg_parse.go:7576
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7624,7 +7641,7 @@ tr273:
 			goto _test_eof218
 		}
 	st_case_218:
-//line msg_parse.go:7619
+//line msg_parse.go:7636
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7692,7 +7709,7 @@ tr321:
 			goto _test_eof219
 		}
 	st_case_219:
-//line msg_parse.go:7687
+//line msg_parse.go:7704
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7748,7 +7765,7 @@ tr313:
 			goto _test_eof220
 		}
 	st_case_220:
-//line msg_parse.go:7743
+//line msg_parse.go:7760
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7778,7 +7795,7 @@ tr314:
 			goto _test_eof221
 		}
 	st_case_221:
-//line msg_parse.go:7773
+//line msg_parse.go:7790
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -7815,7 +7832,7 @@ tr324:
 			goto _test_eof222
 		}
 	st_case_222:
-//line msg_parse.go:7810
+//line msg_parse.go:7827
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr321
 		}
@@ -7843,7 +7860,7 @@ tr325:
 			goto _test_eof223
 		}
 	st_case_223:
-//line msg_parse.go:7838
+//line msg_parse.go:7855
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr324
 		}
@@ -7871,7 +7888,7 @@ tr326:
 			goto _test_eof224
 		}
 	st_case_224:
-//line msg_parse.go:7866
+//line msg_parse.go:7883
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr325
 		}
@@ -7899,7 +7916,7 @@ tr327:
 			goto _test_eof225
 		}
 	st_case_225:
-//line msg_parse.go:7894
+//line msg_parse.go:7911
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr326
 		}
@@ -7927,7 +7944,7 @@ tr328:
 			goto _test_eof226
 		}
 	st_case_226:
-//line msg_parse.go:7922
+//line msg_parse.go:7939
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr327
 		}
@@ -7955,7 +7972,7 @@ tr329:
 			goto _test_eof227
 		}
 	st_case_227:
-//line msg_parse.go:7950
+//line msg_parse.go:7967
 		if data[p] == 10 {
 			goto tr333
 		}
@@ -7972,7 +7989,7 @@ tr333:
 			goto _test_eof228
 		}
 	st_case_228:
-//line msg_parse.go:7967
+//line msg_parse.go:7984
 		switch data[p] {
 		case 9:
 			goto tr321
@@ -8108,7 +8125,7 @@ tr333:
 		}
 		goto st0
 tr337:
-//line sip.rl:205
+//line sip.rl:214
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8119,7 +8136,7 @@ tr337:
 			goto _test_eof233
 		}
 	st_case_233:
-//line msg_parse.go:8114
+//line msg_parse.go:8131
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8141,7 +8158,7 @@ tr337:
 		}
 		goto st0
 tr338:
-//line sip.rl:205
+//line sip.rl:214
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8152,7 +8169,7 @@ tr338:
 			goto _test_eof234
 		}
 	st_case_234:
-//line msg_parse.go:8147
+//line msg_parse.go:8164
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8180,7 +8197,7 @@ tr338:
 		}
 		goto st0
 tr346:
-//line sip.rl:214
+//line sip.rl:223
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -8191,7 +8208,7 @@ tr346:
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:276
  {goto st246 } 
 	goto st754
 tr350:
@@ -8200,17 +8217,17 @@ tr350:
 	p--
 
 
-//line sip.rl:254
+//line sip.rl:278
  {goto st153 } 
 	goto st754
 tr356:
-//line sip.rl:214
+//line sip.rl:223
 
 	*addrp = addr
 	addrp = &addr.Next
 	addr = nil
 
-//line sip.rl:257
+//line sip.rl:281
  {goto st270 } 
 	goto st754
 	st754:
@@ -8218,7 +8235,7 @@ tr356:
 			goto _test_eof754
 		}
 	st_case_754:
-//line msg_parse.go:8213
+//line msg_parse.go:8230
 		goto st0
 	st235:
 		if p++; p == pe {
@@ -8254,7 +8271,7 @@ tr356:
 		}
 		goto tr346
 tr339:
-//line sip.rl:205
+//line sip.rl:214
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8265,7 +8282,7 @@ tr339:
 			goto _test_eof238
 		}
 	st_case_238:
-//line msg_parse.go:8260
+//line msg_parse.go:8277
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8326,7 +8343,7 @@ tr339:
 		}
 		goto tr350
 tr341:
-//line sip.rl:205
+//line sip.rl:214
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8337,7 +8354,7 @@ tr341:
 			goto _test_eof242
 		}
 	st_case_242:
-//line msg_parse.go:8332
+//line msg_parse.go:8349
 		if data[p] == 10 {
 			goto st243
 		}
@@ -8371,7 +8388,7 @@ tr341:
 		}
 		goto st0
 tr340:
-//line sip.rl:205
+//line sip.rl:214
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8382,7 +8399,7 @@ tr340:
 			goto _test_eof245
 		}
 	st_case_245:
-//line msg_parse.go:8377
+//line msg_parse.go:8394
 		if data[p] == 10 {
 			goto tr356
 		}
@@ -8444,7 +8461,7 @@ tr357:
 			goto _test_eof247
 		}
 	st_case_247:
-//line msg_parse.go:8439
+//line msg_parse.go:8456
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8545,7 +8562,7 @@ tr357:
 		}
 		goto st0
 tr358:
-//line sip.rl:189
+//line sip.rl:198
 
 	addr = new(Addr)
 
@@ -8554,11 +8571,11 @@ tr358:
 	p--
 
 
-//line sip.rl:253
+//line sip.rl:277
  {goto st188 } 
 	goto st755
 tr363:
-//line sip.rl:189
+//line sip.rl:198
 
 	addr = new(Addr)
 
@@ -8567,11 +8584,11 @@ tr363:
 	p = ( mark) - 1
 
 
-//line sip.rl:253
+//line sip.rl:277
  {goto st188 } 
 	goto st755
 tr367:
-//line sip.rl:189
+//line sip.rl:198
 
 	addr = new(Addr)
 
@@ -8580,7 +8597,7 @@ tr367:
 	p = ( mark) - 1
 
 
-//line sip.rl:255
+//line sip.rl:279
  {goto st229 } 
 	goto st755
 	st755:
@@ -8588,7 +8605,7 @@ tr367:
 			goto _test_eof755
 		}
 	st_case_755:
-//line msg_parse.go:8583
+//line msg_parse.go:8600
 		goto st0
 	st249:
 		if p++; p == pe {
@@ -8666,7 +8683,7 @@ tr359:
 			goto _test_eof252
 		}
 	st_case_252:
-//line msg_parse.go:8661
+//line msg_parse.go:8678
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8777,7 +8794,7 @@ tr368:
 			goto _test_eof254
 		}
 	st_case_254:
-//line msg_parse.go:8772
+//line msg_parse.go:8789
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8831,7 +8848,7 @@ tr369:
 			goto _test_eof255
 		}
 	st_case_255:
-//line msg_parse.go:8826
+//line msg_parse.go:8843
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st254
 		}
@@ -8847,7 +8864,7 @@ tr370:
 			goto _test_eof256
 		}
 	st_case_256:
-//line msg_parse.go:8842
+//line msg_parse.go:8859
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st255
 		}
@@ -8863,7 +8880,7 @@ tr371:
 			goto _test_eof257
 		}
 	st_case_257:
-//line msg_parse.go:8858
+//line msg_parse.go:8875
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st256
 		}
@@ -8879,7 +8896,7 @@ tr372:
 			goto _test_eof258
 		}
 	st_case_258:
-//line msg_parse.go:8874
+//line msg_parse.go:8891
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st257
 		}
@@ -8895,7 +8912,7 @@ tr373:
 			goto _test_eof259
 		}
 	st_case_259:
-//line msg_parse.go:8890
+//line msg_parse.go:8907
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st258
 		}
@@ -8911,13 +8928,13 @@ tr374:
 			goto _test_eof260
 		}
 	st_case_260:
-//line msg_parse.go:8906
+//line msg_parse.go:8923
 		if data[p] == 10 {
 			goto tr384
 		}
 		goto st0
 tr384:
-//line sip.rl:180
+//line sip.rl:189
 {
 	b := data[mark:p - 1]
 	if value != nil {
@@ -8926,7 +8943,7 @@ tr384:
 		msg.XHeader = &XHeader{name, b, msg.XHeader}
 	}
 }
-//line sip.rl:257
+//line sip.rl:281
  {goto st270 } 
 	goto st756
 	st756:
@@ -8934,7 +8951,7 @@ tr384:
 			goto _test_eof756
 		}
 	st_case_756:
-//line msg_parse.go:8929
+//line msg_parse.go:8946
 		goto st0
 tr375:
 //line sip.rl:80
@@ -8947,7 +8964,7 @@ tr375:
 			goto _test_eof261
 		}
 	st_case_261:
-//line msg_parse.go:8942
+//line msg_parse.go:8959
 		if data[p] == 10 {
 			goto st262
 		}
@@ -9047,7 +9064,7 @@ tr375:
 		}
 		goto st0
 tr387:
-//line sip.rl:176
+//line sip.rl:185
 
 	name = string(data[mark:p])
 
@@ -9057,7 +9074,7 @@ tr387:
 			goto _test_eof265
 		}
 	st_case_265:
-//line msg_parse.go:9052
+//line msg_parse.go:9069
 		switch data[p] {
 		case 9:
 			goto st265
@@ -9068,7 +9085,7 @@ tr387:
 		}
 		goto st0
 tr388:
-//line sip.rl:176
+//line sip.rl:185
 
 	name = string(data[mark:p])
 
@@ -9078,7 +9095,7 @@ tr388:
 			goto _test_eof266
 		}
 	st_case_266:
-//line msg_parse.go:9073
+//line msg_parse.go:9090
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9106,14 +9123,14 @@ tr388:
 		}
 		goto st0
 tr391:
-//line sip.rl:532
+//line sip.rl:556
 value=nil
 //line sip.rl:72
 
 	p--
 
 
-//line sip.rl:258
+//line sip.rl:282
  {goto st253 } 
 	goto st757
 	st757:
@@ -9121,7 +9138,7 @@ value=nil
 			goto _test_eof757
 		}
 	st_case_757:
-//line msg_parse.go:9116
+//line msg_parse.go:9133
 		goto st0
 	st267:
 		if p++; p == pe {
@@ -9206,7 +9223,7 @@ value=nil
 		}
 		goto st0
 tr541:
-//line sip.rl:257
+//line sip.rl:281
  {goto st270 } 
 	goto st758
 tr397:
@@ -9221,7 +9238,7 @@ tr424:
 	p--
 
 
-//line sip.rl:258
+//line sip.rl:282
  {goto st253 } 
 	goto st758
 tr523:
@@ -9230,22 +9247,22 @@ tr523:
 	p--
 
 
-//line sip.rl:256
+//line sip.rl:280
  {goto st34 } 
 	goto st758
 tr558:
-//line sip.rl:534
+//line sip.rl:558
 value=nil
 //line sip.rl:72
 
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:276
  {goto st246 } 
 	goto st758
 tr945:
-//line sip.rl:137
+//line sip.rl:143
 
 	via = new(Via)
 
@@ -9254,7 +9271,7 @@ tr945:
 	p--
 
 
-//line sip.rl:259
+//line sip.rl:283
  {goto st103 } 
 	goto st758
 	st758:
@@ -9262,7 +9279,7 @@ tr945:
 			goto _test_eof758
 		}
 	st_case_758:
-//line msg_parse.go:9257
+//line msg_parse.go:9274
 		goto st0
 tr396:
 //line sip.rl:80
@@ -9280,7 +9297,7 @@ tr396:
 			goto _test_eof272
 		}
 	st_case_272:
-//line msg_parse.go:9275
+//line msg_parse.go:9292
 		switch data[p] {
 		case 65:
 			goto st273
@@ -9383,153 +9400,153 @@ tr396:
 		}
 		goto tr398
 tr417:
-//line sip.rl:451
+//line sip.rl:475
 value=&msg.AcceptContact
 	goto st274
 tr432:
-//line sip.rl:450
+//line sip.rl:474
 value=&msg.Accept
 	goto st274
 tr451:
-//line sip.rl:452
+//line sip.rl:476
 value=&msg.AcceptEncoding
 	goto st274
 tr460:
-//line sip.rl:453
+//line sip.rl:477
 value=&msg.AcceptLanguage
 	goto st274
 tr471:
-//line sip.rl:456
+//line sip.rl:480
 value=&msg.AlertInfo
 	goto st274
 tr475:
-//line sip.rl:454
+//line sip.rl:478
 value=&msg.Allow
 	goto st274
 tr484:
-//line sip.rl:455
+//line sip.rl:479
 value=&msg.AllowEvents
 	goto st274
 tr504:
-//line sip.rl:457
+//line sip.rl:481
 value=&msg.AuthenticationInfo
 	goto st274
 tr514:
-//line sip.rl:458
+//line sip.rl:482
 value=&msg.Authorization
 	goto st274
 tr516:
-//line sip.rl:475
+//line sip.rl:499
 value=&msg.ReferredBy
 	goto st274
 tr546:
-//line sip.rl:462
+//line sip.rl:486
 value=&msg.CallInfo
 	goto st274
 tr579:
-//line sip.rl:459
+//line sip.rl:483
 value=&msg.ContentDisposition
 	goto st274
 tr588:
-//line sip.rl:461
+//line sip.rl:485
 value=&msg.ContentEncoding
 	goto st274
 tr598:
-//line sip.rl:460
+//line sip.rl:484
 value=&msg.ContentLanguage
 	goto st274
 tr632:
-//line sip.rl:463
+//line sip.rl:487
 value=&msg.Date
 	goto st274
 tr645:
-//line sip.rl:464
+//line sip.rl:488
 value=&msg.ErrorInfo
 	goto st274
 tr650:
-//line sip.rl:465
+//line sip.rl:489
 value=&msg.Event
 	goto st274
 tr679:
-//line sip.rl:466
+//line sip.rl:490
 value=&msg.InReplyTo
 	goto st274
 tr681:
-//line sip.rl:480
+//line sip.rl:504
 value=&msg.Supported
 	goto st274
 tr713:
-//line sip.rl:468
+//line sip.rl:492
 value=&msg.MIMEVersion
 	goto st274
 tr741:
-//line sip.rl:469
+//line sip.rl:493
 value=&msg.Organization
 	goto st274
 tr771:
-//line sip.rl:470
+//line sip.rl:494
 value=&msg.Priority
 	goto st274
 tr790:
-//line sip.rl:471
+//line sip.rl:495
 value=&msg.ProxyAuthenticate
 	goto st274
 tr800:
-//line sip.rl:472
+//line sip.rl:496
 value=&msg.ProxyAuthorization
 	goto st274
 tr808:
-//line sip.rl:473
+//line sip.rl:497
 value=&msg.ProxyRequire
 	goto st274
 tr810:
-//line sip.rl:474
+//line sip.rl:498
 value=&msg.ReferTo
 	goto st274
 tr860:
-//line sip.rl:467
+//line sip.rl:491
 value=&msg.ReplyTo
 	goto st274
 tr866:
-//line sip.rl:476
+//line sip.rl:500
 value=&msg.Require
 	goto st274
 tr876:
-//line sip.rl:477
+//line sip.rl:501
 value=&msg.RetryAfter
 	goto st274
 tr883:
-//line sip.rl:479
+//line sip.rl:503
 value=&msg.Subject
 	goto st274
 tr891:
-//line sip.rl:478
+//line sip.rl:502
 value=&msg.Server
 	goto st274
 tr915:
-//line sip.rl:481
+//line sip.rl:505
 value=&msg.Timestamp
 	goto st274
 tr917:
-//line sip.rl:454
+//line sip.rl:478
 value=&msg.Allow
-//line sip.rl:455
+//line sip.rl:479
 value=&msg.AllowEvents
 	goto st274
 tr930:
-//line sip.rl:482
+//line sip.rl:506
 value=&msg.Unsupported
 	goto st274
 tr940:
-//line sip.rl:483
+//line sip.rl:507
 value=&msg.UserAgent
 	goto st274
 tr957:
-//line sip.rl:484
+//line sip.rl:508
 value=&msg.Warning
 	goto st274
 tr973:
-//line sip.rl:485
+//line sip.rl:509
 value=&msg.WWWAuthenticate
 	goto st274
 	st274:
@@ -9537,7 +9554,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof274
 		}
 	st_case_274:
-//line msg_parse.go:9532
+//line msg_parse.go:9549
 		switch data[p] {
 		case 9:
 			goto st274
@@ -9548,153 +9565,153 @@ value=&msg.WWWAuthenticate
 		}
 		goto st0
 tr418:
-//line sip.rl:451
+//line sip.rl:475
 value=&msg.AcceptContact
 	goto st275
 tr434:
-//line sip.rl:450
+//line sip.rl:474
 value=&msg.Accept
 	goto st275
 tr452:
-//line sip.rl:452
+//line sip.rl:476
 value=&msg.AcceptEncoding
 	goto st275
 tr461:
-//line sip.rl:453
+//line sip.rl:477
 value=&msg.AcceptLanguage
 	goto st275
 tr472:
-//line sip.rl:456
+//line sip.rl:480
 value=&msg.AlertInfo
 	goto st275
 tr477:
-//line sip.rl:454
+//line sip.rl:478
 value=&msg.Allow
 	goto st275
 tr485:
-//line sip.rl:455
+//line sip.rl:479
 value=&msg.AllowEvents
 	goto st275
 tr505:
-//line sip.rl:457
+//line sip.rl:481
 value=&msg.AuthenticationInfo
 	goto st275
 tr515:
-//line sip.rl:458
+//line sip.rl:482
 value=&msg.Authorization
 	goto st275
 tr517:
-//line sip.rl:475
+//line sip.rl:499
 value=&msg.ReferredBy
 	goto st275
 tr547:
-//line sip.rl:462
+//line sip.rl:486
 value=&msg.CallInfo
 	goto st275
 tr580:
-//line sip.rl:459
+//line sip.rl:483
 value=&msg.ContentDisposition
 	goto st275
 tr589:
-//line sip.rl:461
+//line sip.rl:485
 value=&msg.ContentEncoding
 	goto st275
 tr599:
-//line sip.rl:460
+//line sip.rl:484
 value=&msg.ContentLanguage
 	goto st275
 tr633:
-//line sip.rl:463
+//line sip.rl:487
 value=&msg.Date
 	goto st275
 tr646:
-//line sip.rl:464
+//line sip.rl:488
 value=&msg.ErrorInfo
 	goto st275
 tr651:
-//line sip.rl:465
+//line sip.rl:489
 value=&msg.Event
 	goto st275
 tr680:
-//line sip.rl:466
+//line sip.rl:490
 value=&msg.InReplyTo
 	goto st275
 tr682:
-//line sip.rl:480
+//line sip.rl:504
 value=&msg.Supported
 	goto st275
 tr714:
-//line sip.rl:468
+//line sip.rl:492
 value=&msg.MIMEVersion
 	goto st275
 tr742:
-//line sip.rl:469
+//line sip.rl:493
 value=&msg.Organization
 	goto st275
 tr772:
-//line sip.rl:470
+//line sip.rl:494
 value=&msg.Priority
 	goto st275
 tr791:
-//line sip.rl:471
+//line sip.rl:495
 value=&msg.ProxyAuthenticate
 	goto st275
 tr801:
-//line sip.rl:472
+//line sip.rl:496
 value=&msg.ProxyAuthorization
 	goto st275
 tr809:
-//line sip.rl:473
+//line sip.rl:497
 value=&msg.ProxyRequire
 	goto st275
 tr811:
-//line sip.rl:474
+//line sip.rl:498
 value=&msg.ReferTo
 	goto st275
 tr861:
-//line sip.rl:467
+//line sip.rl:491
 value=&msg.ReplyTo
 	goto st275
 tr867:
-//line sip.rl:476
+//line sip.rl:500
 value=&msg.Require
 	goto st275
 tr877:
-//line sip.rl:477
+//line sip.rl:501
 value=&msg.RetryAfter
 	goto st275
 tr884:
-//line sip.rl:479
+//line sip.rl:503
 value=&msg.Subject
 	goto st275
 tr892:
-//line sip.rl:478
+//line sip.rl:502
 value=&msg.Server
 	goto st275
 tr916:
-//line sip.rl:481
+//line sip.rl:505
 value=&msg.Timestamp
 	goto st275
 tr918:
-//line sip.rl:454
+//line sip.rl:478
 value=&msg.Allow
-//line sip.rl:455
+//line sip.rl:479
 value=&msg.AllowEvents
 	goto st275
 tr931:
-//line sip.rl:482
+//line sip.rl:506
 value=&msg.Unsupported
 	goto st275
 tr941:
-//line sip.rl:483
+//line sip.rl:507
 value=&msg.UserAgent
 	goto st275
 tr958:
-//line sip.rl:484
+//line sip.rl:508
 value=&msg.Warning
 	goto st275
 tr974:
-//line sip.rl:485
+//line sip.rl:509
 value=&msg.WWWAuthenticate
 	goto st275
 	st275:
@@ -9702,7 +9719,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof275
 		}
 	st_case_275:
-//line msg_parse.go:9697
+//line msg_parse.go:9714
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -10967,7 +10984,7 @@ tr535:
 			goto _test_eof369
 		}
 	st_case_369:
-//line msg_parse.go:10962
+//line msg_parse.go:10979
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11106,13 +11123,13 @@ tr535:
 		}
 		goto st0
 tr539:
-//line sip.rl:220
+//line sip.rl:229
 
 	msg.CallID = string(data[mark:p])
 
 	goto st372
 tr624:
-//line sip.rl:236
+//line sip.rl:251
 
 	msg.CSeqMethod = string(data[mark:p])
 
@@ -11122,7 +11139,7 @@ tr624:
 			goto _test_eof372
 		}
 	st_case_372:
-//line msg_parse.go:11117
+//line msg_parse.go:11134
 		if data[p] == 10 {
 			goto tr541
 		}
@@ -11311,31 +11328,31 @@ tr624:
 		}
 		goto tr398
 tr554:
-//line sip.rl:437
+//line sip.rl:461
 addrp=lastAddr(&msg.Contact)
 	goto st385
 tr664:
-//line sip.rl:438
+//line sip.rl:462
 addrp=lastAddr(&msg.From)
 	goto st385
 tr762:
-//line sip.rl:439
+//line sip.rl:463
 addrp=lastAddr(&msg.PAssertedIdentity)
 	goto st385
 tr829:
-//line sip.rl:440
+//line sip.rl:464
 addrp=lastAddr(&msg.RecordRoute)
 	goto st385
 tr853:
-//line sip.rl:441
+//line sip.rl:465
 addrp=lastAddr(&msg.RemotePartyID)
 	goto st385
 tr881:
-//line sip.rl:442
+//line sip.rl:466
 addrp=lastAddr(&msg.Route)
 	goto st385
 tr904:
-//line sip.rl:443
+//line sip.rl:467
 addrp=lastAddr(&msg.To)
 	goto st385
 	st385:
@@ -11343,7 +11360,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof385
 		}
 	st_case_385:
-//line msg_parse.go:11338
+//line msg_parse.go:11355
 		switch data[p] {
 		case 9:
 			goto st385
@@ -11354,31 +11371,31 @@ addrp=lastAddr(&msg.To)
 		}
 		goto st0
 tr555:
-//line sip.rl:437
+//line sip.rl:461
 addrp=lastAddr(&msg.Contact)
 	goto st386
 tr665:
-//line sip.rl:438
+//line sip.rl:462
 addrp=lastAddr(&msg.From)
 	goto st386
 tr763:
-//line sip.rl:439
+//line sip.rl:463
 addrp=lastAddr(&msg.PAssertedIdentity)
 	goto st386
 tr830:
-//line sip.rl:440
+//line sip.rl:464
 addrp=lastAddr(&msg.RecordRoute)
 	goto st386
 tr854:
-//line sip.rl:441
+//line sip.rl:465
 addrp=lastAddr(&msg.RemotePartyID)
 	goto st386
 tr882:
-//line sip.rl:442
+//line sip.rl:466
 addrp=lastAddr(&msg.Route)
 	goto st386
 tr905:
-//line sip.rl:443
+//line sip.rl:467
 addrp=lastAddr(&msg.To)
 	goto st386
 	st386:
@@ -11386,7 +11403,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof386
 		}
 	st_case_386:
-//line msg_parse.go:11381
+//line msg_parse.go:11398
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11938,16 +11955,22 @@ addrp=lastAddr(&msg.To)
 		}
 		goto st0
 tr605:
-//line sip.rl:493
+//line sip.rl:517
 clen=0
-//line sip.rl:224
+//line sip.rl:233
 
+	if clen > (maxInt - 9) / 10 {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	clen = clen * 10 + (int(data[p]) - 0x30)
 
 	goto st428
 tr607:
-//line sip.rl:224
+//line sip.rl:233
 
+	if clen > (maxInt - 9) / 10 {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	clen = clen * 10 + (int(data[p]) - 0x30)
 
 	goto st428
@@ -11956,7 +11979,7 @@ tr607:
 			goto _test_eof428
 		}
 	st_case_428:
-//line msg_parse.go:11951
+//line msg_parse.go:11974
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12134,8 +12157,11 @@ tr607:
 		}
 		goto st0
 tr618:
-//line sip.rl:232
+//line sip.rl:244
 
+	if msg.CSeq > (maxInt - 9) / 10 {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.CSeq = msg.CSeq * 10 + (int(data[p]) - 0x30)
 
 	goto st441
@@ -12144,7 +12170,7 @@ tr618:
 			goto _test_eof441
 		}
 	st_case_441:
-//line msg_parse.go:12139
+//line msg_parse.go:12165
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12226,7 +12252,7 @@ tr622:
 			goto _test_eof443
 		}
 	st_case_443:
-//line msg_parse.go:12221
+//line msg_parse.go:12247
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12714,16 +12740,22 @@ tr622:
 		}
 		goto st0
 tr659:
-//line sip.rl:495
+//line sip.rl:519
 msg.Expires=0
-//line sip.rl:240
+//line sip.rl:255
 
+	if msg.Expires > (maxInt - 9) / 10 {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
 
 	goto st476
 tr661:
-//line sip.rl:240
+//line sip.rl:255
 
+	if msg.Expires > (maxInt - 9) / 10 {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
 
 	goto st476
@@ -12732,7 +12764,7 @@ tr661:
 			goto _test_eof476
 		}
 	st_case_476:
-//line msg_parse.go:12727
+//line msg_parse.go:12759
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13179,16 +13211,22 @@ tr661:
 		}
 		goto st0
 tr697:
-//line sip.rl:496
+//line sip.rl:520
 msg.MaxForwards=0
-//line sip.rl:244
+//line sip.rl:262
 
+	if msg.MaxForwards > (maxInt - 9) / 10 {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
 
 	goto st510
 tr699:
-//line sip.rl:244
+//line sip.rl:262
 
+	if msg.MaxForwards > (maxInt - 9) / 10 {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
 
 	goto st510
@@ -13197,7 +13235,7 @@ tr699:
 			goto _test_eof510
 		}
 	st_case_510:
-//line msg_parse.go:13192
+//line msg_parse.go:13230
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13529,16 +13567,22 @@ tr699:
 		}
 		goto st0
 tr725:
-//line sip.rl:497
+//line sip.rl:521
 msg.MinExpires=0
-//line sip.rl:248
+//line sip.rl:269
 
+	if msg.MinExpires > (maxInt - 9) / 10 {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
 
 	goto st536
 tr727:
-//line sip.rl:248
+//line sip.rl:269
 
+	if msg.MinExpires > (maxInt - 9) / 10 {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
 
 	goto st536
@@ -13547,7 +13591,7 @@ tr727:
 			goto _test_eof536
 		}
 	st_case_536:
-//line msg_parse.go:13542
+//line msg_parse.go:13586
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -16985,20 +17029,20 @@ tr727:
 	if p == eof {
 		switch cs {
 		case 272, 273, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 361, 362, 363, 364, 365, 366, 376, 377, 378, 379, 380, 381, 382, 383, 384, 390, 391, 392, 393, 394, 395, 396, 397, 398, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 432, 433, 434, 435, 436, 437, 438, 450, 451, 452, 453, 454, 455, 456, 457, 458, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 480, 481, 482, 483, 484, 485, 486, 487, 488, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 514, 515, 516, 517, 518, 519, 520, 521, 522, 523, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 540, 541, 542, 543, 544, 545, 546, 547, 548, 549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 724, 725, 726, 727, 728, 729, 730, 731, 732, 733, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746, 747:
-//line sip.rl:171
+//line sip.rl:180
 
 	p = ( mark) - 1
 
 	{goto st263 }
 
-//line msg_parse.go:16986
+//line msg_parse.go:17030
 		}
 	}
 
 	_out: {}
 	}
 
-//line msg_parse.rl:54
+//line msg_parse.rl:56
 
 	if cs < msg_first_final {
 		if p == pe {
diff --git a/sip/msg_parse.rl b/sip/msg_parse.rl
index 061922c..1ba07c7 100644
--- a/sip/msg_parse.rl
+++ b/sip/msg_parse.rl
@@ -25,6 +25,8 @@ import (
 %% include sip "sip.rl";
 %% write data;
 
+const maxInt = int(^uint(0) >> 1)
+
 // ParseMsg turns a SIP message byte slice into a data structure.
 func ParseMsg(data []byte) (msg *Msg, err error) {
 	if data == nil {
diff --git a/sip/sip.rl b/sip/sip.rl
index 7a6c489..e44ddf3 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -114,10 +114,16 @@ action Method {
 }
 
 action VersionMajor {
+	if int(msg.VersionMajor) * 10 + int(fc - 0x30) > 255 {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.VersionMajor = msg.VersionMajor * 10 + (fc - 0x30)
 }
 
 action VersionMinor {
+	if int(msg.VersionMinor) * 10 + int(fc - 0x30) > 255 {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.VersionMinor = msg.VersionMinor * 10 + (fc - 0x30)
 }
 
@@ -161,6 +167,9 @@ action ViaHost {
 }
 
 action ViaPort {
+	if int(via.Port) * 10 + int(fc - 0x30) > 65535 {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	via.Port = via.Port * 10 + (uint16(fc) - 0x30)
 }
 
@@ -222,6 +231,9 @@ action CallID {
 }
 
 action ContentLength {
+	if clen > (maxInt - 9) / 10 {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	clen = clen * 10 + (int(fc) - 0x30)
 }
 
@@ -230,6 +242,9 @@ action ContentType {
 }
 
 action CSeq {
+	if msg.CSeq > (maxInt - 9) / 10 {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.CSeq = msg.CSeq * 10 + (int(fc) - 0x30)
 }
 
@@ -238,14 +253,23 @@ action CSeqMethod {
 }
 
 action Expires {
+	if msg.Expires > (maxInt - 9) / 10 {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.Expires = msg.Expires * 10 + (int(fc) - 0x30)
 }
 
 action MaxForwards {
+	if msg.MaxForwards > (maxInt - 9) / 10 {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.MaxForwards = msg.MaxForwards * 10 + (int(fc) - 0x30)
 }
 
 action MinExpires {
+	if msg.MinExpires > (maxInt - 9) / 10 {
+		return nil, MsgParseError{Msg: data, Offset: p}
+	}
 	msg.MinExpires = msg.MinExpires * 10 + (int(fc) - 0x30)
 }
 
diff --git a/sip/uri_parse.go b/sip/uri_parse.go
index 6cd03bc..5330994 100644
--- a/sip/uri_parse.go
+++ b/sip/uri_parse.go
@@ -53,7 +53,7 @@ func ParseURI(data []byte) (uri *URI, err error) {
 	var hex byte
 
 	
-//line uri_parse.rl:161
+//line uri_parse.rl:164
 
 
 	
@@ -62,7 +62,7 @@ func ParseURI(data []byte) (uri *URI, err error) {
 	cs = uri_start
 	}
 
-//line uri_parse.rl:164
+//line uri_parse.rl:167
 	if bytes.IndexByte(data, '@') == -1 {
 		cs = uri_en_uriSansUser;
 	} else {
@@ -214,7 +214,7 @@ tr0:
 
 			amt = 0
 		
-//line uri_parse.rl:100
+//line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -225,7 +225,7 @@ tr0:
 		
 	goto st2
 tr2:
-//line uri_parse.rl:100
+//line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -620,7 +620,7 @@ tr19:
 
 			amt = 0
 		
-//line uri_parse.rl:100
+//line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -631,7 +631,7 @@ tr19:
 		
 	goto st45
 tr66:
-//line uri_parse.rl:100
+//line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -694,6 +694,9 @@ tr67:
 tr21:
 //line uri_parse.rl:86
 
+			if int(uri.Port) * 10 + int(data[p] - 0x30) > 65535 {
+				return nil, errors.New(fmt.Sprintf("Error in URI at pos %d: %s", p, data))
+			}
 			uri.Port = uri.Port * 10 + uint16(data[p] - 0x30)
 		
 	goto st46
@@ -702,7 +705,7 @@ tr21:
 			goto _test_eof46
 		}
 	st_case_46:
-//line uri_parse.go:698
+//line uri_parse.go:701
 		switch data[p] {
 		case 59:
 			goto st13
@@ -720,23 +723,23 @@ tr68:
 		
 	goto st13
 tr74:
-//line uri_parse.rl:90
+//line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:112
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st13
 tr79:
-//line uri_parse.rl:95
+//line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:112
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
@@ -746,7 +749,7 @@ tr79:
 			goto _test_eof13
 		}
 	st_case_13:
-//line uri_parse.go:742
+//line uri_parse.go:745
 		switch data[p] {
 		case 33:
 			goto tr22
@@ -797,7 +800,7 @@ tr22:
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -813,7 +816,7 @@ tr22:
 			goto _test_eof47
 		}
 	st_case_47:
-//line uri_parse.go:809
+//line uri_parse.go:812
 		switch data[p] {
 		case 33:
 			goto tr72
@@ -855,7 +858,7 @@ tr23:
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -866,7 +869,7 @@ tr23:
 			goto _test_eof14
 		}
 	st_case_14:
-//line uri_parse.go:862
+//line uri_parse.go:865
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -891,7 +894,7 @@ tr24:
 			goto _test_eof15
 		}
 	st_case_15:
-//line uri_parse.go:887
+//line uri_parse.go:890
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -906,7 +909,7 @@ tr24:
 		}
 		goto st0
 tr75:
-//line uri_parse.rl:90
+//line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
 			amt = 0
@@ -917,7 +920,7 @@ tr75:
 			goto _test_eof16
 		}
 	st_case_16:
-//line uri_parse.go:913
+//line uri_parse.go:916
 		switch data[p] {
 		case 33:
 			goto tr26
@@ -979,7 +982,7 @@ tr29:
 			goto _test_eof48
 		}
 	st_case_48:
-//line uri_parse.go:975
+//line uri_parse.go:978
 		switch data[p] {
 		case 33:
 			goto tr77
@@ -1025,7 +1028,7 @@ tr27:
 			goto _test_eof17
 		}
 	st_case_17:
-//line uri_parse.go:1021
+//line uri_parse.go:1024
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1050,7 +1053,7 @@ tr28:
 			goto _test_eof18
 		}
 	st_case_18:
-//line uri_parse.go:1046
+//line uri_parse.go:1049
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1071,45 +1074,45 @@ tr69:
 		
 	goto st19
 tr76:
-//line uri_parse.rl:90
+//line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:112
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st19
 tr80:
-//line uri_parse.rl:95
+//line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:112
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st19
 tr83:
-//line uri_parse.rl:90
+//line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:113
+//line uri_parse.rl:116
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
 	goto st19
 tr87:
-//line uri_parse.rl:95
+//line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:113
+//line uri_parse.rl:116
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
@@ -1119,7 +1122,7 @@ tr87:
 			goto _test_eof19
 		}
 	st_case_19:
-//line uri_parse.go:1115
+//line uri_parse.go:1118
 		switch data[p] {
 		case 33:
 			goto tr30
@@ -1174,7 +1177,7 @@ tr30:
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -1190,7 +1193,7 @@ tr30:
 			goto _test_eof49
 		}
 	st_case_49:
-//line uri_parse.go:1186
+//line uri_parse.go:1189
 		switch data[p] {
 		case 33:
 			goto tr81
@@ -1232,7 +1235,7 @@ tr31:
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -1243,7 +1246,7 @@ tr31:
 			goto _test_eof20
 		}
 	st_case_20:
-//line uri_parse.go:1239
+//line uri_parse.go:1242
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1268,7 +1271,7 @@ tr32:
 			goto _test_eof21
 		}
 	st_case_21:
-//line uri_parse.go:1264
+//line uri_parse.go:1267
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1283,7 +1286,7 @@ tr32:
 		}
 		goto st0
 tr84:
-//line uri_parse.rl:90
+//line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
 			amt = 0
@@ -1294,7 +1297,7 @@ tr84:
 			goto _test_eof22
 		}
 	st_case_22:
-//line uri_parse.go:1290
+//line uri_parse.go:1293
 		switch data[p] {
 		case 33:
 			goto tr34
@@ -1360,7 +1363,7 @@ tr37:
 			goto _test_eof50
 		}
 	st_case_50:
-//line uri_parse.go:1356
+//line uri_parse.go:1359
 		switch data[p] {
 		case 33:
 			goto tr85
@@ -1406,7 +1409,7 @@ tr35:
 			goto _test_eof23
 		}
 	st_case_23:
-//line uri_parse.go:1402
+//line uri_parse.go:1405
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1431,7 +1434,7 @@ tr36:
 			goto _test_eof24
 		}
 	st_case_24:
-//line uri_parse.go:1427
+//line uri_parse.go:1430
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1471,7 +1474,7 @@ tr38:
 
 			amt = 0
 		
-//line uri_parse.rl:100
+//line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -1482,7 +1485,7 @@ tr38:
 		
 	goto st26
 tr39:
-//line uri_parse.rl:100
+//line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -1497,7 +1500,7 @@ tr39:
 			goto _test_eof26
 		}
 	st_case_26:
-//line uri_parse.go:1493
+//line uri_parse.go:1496
 		switch data[p] {
 		case 46:
 			goto tr39
@@ -1528,7 +1531,7 @@ tr40:
 			goto _test_eof51
 		}
 	st_case_51:
-//line uri_parse.go:1524
+//line uri_parse.go:1527
 		switch data[p] {
 		case 58:
 			goto st12
@@ -1553,7 +1556,7 @@ tr41:
 
 			amt = 0
 		
-//line uri_parse.rl:100
+//line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -1564,7 +1567,7 @@ tr41:
 		
 	goto st28
 tr42:
-//line uri_parse.rl:100
+//line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -1579,7 +1582,7 @@ tr42:
 			goto _test_eof28
 		}
 	st_case_28:
-//line uri_parse.go:1575
+//line uri_parse.go:1578
 		switch data[p] {
 		case 43:
 			goto tr42
@@ -1615,7 +1618,7 @@ tr43:
 			goto _test_eof29
 		}
 	st_case_29:
-//line uri_parse.go:1611
+//line uri_parse.go:1614
 		switch data[p] {
 		case 43:
 			goto tr44
@@ -1645,7 +1648,7 @@ tr44:
 
 			amt = 0
 		
-//line uri_parse.rl:100
+//line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -1656,7 +1659,7 @@ tr44:
 		
 	goto st52
 tr89:
-//line uri_parse.rl:100
+//line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -1671,7 +1674,7 @@ tr89:
 			goto _test_eof52
 		}
 	st_case_52:
-//line uri_parse.go:1667
+//line uri_parse.go:1670
 		switch data[p] {
 		case 43:
 			goto tr89
@@ -1711,7 +1714,7 @@ tr90:
 			goto _test_eof30
 		}
 	st_case_30:
-//line uri_parse.go:1707
+//line uri_parse.go:1710
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr46
 		}
@@ -1719,6 +1722,9 @@ tr90:
 tr46:
 //line uri_parse.rl:86
 
+			if int(uri.Port) * 10 + int(data[p] - 0x30) > 65535 {
+				return nil, errors.New(fmt.Sprintf("Error in URI at pos %d: %s", p, data))
+			}
 			uri.Port = uri.Port * 10 + uint16(data[p] - 0x30)
 		
 	goto st53
@@ -1727,7 +1733,7 @@ tr46:
 			goto _test_eof53
 		}
 	st_case_53:
-//line uri_parse.go:1723
+//line uri_parse.go:1729
 		switch data[p] {
 		case 59:
 			goto st31
@@ -1745,23 +1751,23 @@ tr91:
 		
 	goto st31
 tr97:
-//line uri_parse.rl:90
+//line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:112
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st31
 tr102:
-//line uri_parse.rl:95
+//line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:112
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
@@ -1771,7 +1777,7 @@ tr102:
 			goto _test_eof31
 		}
 	st_case_31:
-//line uri_parse.go:1767
+//line uri_parse.go:1773
 		switch data[p] {
 		case 33:
 			goto tr47
@@ -1822,7 +1828,7 @@ tr47:
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -1838,7 +1844,7 @@ tr47:
 			goto _test_eof54
 		}
 	st_case_54:
-//line uri_parse.go:1834
+//line uri_parse.go:1840
 		switch data[p] {
 		case 33:
 			goto tr95
@@ -1880,7 +1886,7 @@ tr48:
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -1891,7 +1897,7 @@ tr48:
 			goto _test_eof32
 		}
 	st_case_32:
-//line uri_parse.go:1887
+//line uri_parse.go:1893
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1916,7 +1922,7 @@ tr49:
 			goto _test_eof33
 		}
 	st_case_33:
-//line uri_parse.go:1912
+//line uri_parse.go:1918
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1931,7 +1937,7 @@ tr49:
 		}
 		goto st0
 tr98:
-//line uri_parse.rl:90
+//line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
 			amt = 0
@@ -1942,7 +1948,7 @@ tr98:
 			goto _test_eof34
 		}
 	st_case_34:
-//line uri_parse.go:1938
+//line uri_parse.go:1944
 		switch data[p] {
 		case 33:
 			goto tr51
@@ -2004,7 +2010,7 @@ tr54:
 			goto _test_eof55
 		}
 	st_case_55:
-//line uri_parse.go:2000
+//line uri_parse.go:2006
 		switch data[p] {
 		case 33:
 			goto tr100
@@ -2050,7 +2056,7 @@ tr52:
 			goto _test_eof35
 		}
 	st_case_35:
-//line uri_parse.go:2046
+//line uri_parse.go:2052
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2075,7 +2081,7 @@ tr53:
 			goto _test_eof36
 		}
 	st_case_36:
-//line uri_parse.go:2071
+//line uri_parse.go:2077
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2096,45 +2102,45 @@ tr92:
 		
 	goto st37
 tr99:
-//line uri_parse.rl:90
+//line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:112
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st37
 tr103:
-//line uri_parse.rl:95
+//line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:112
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st37
 tr106:
-//line uri_parse.rl:90
+//line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:113
+//line uri_parse.rl:116
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
 	goto st37
 tr110:
-//line uri_parse.rl:95
+//line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:113
+//line uri_parse.rl:116
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
@@ -2144,7 +2150,7 @@ tr110:
 			goto _test_eof37
 		}
 	st_case_37:
-//line uri_parse.go:2140
+//line uri_parse.go:2146
 		switch data[p] {
 		case 33:
 			goto tr55
@@ -2199,7 +2205,7 @@ tr55:
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -2215,7 +2221,7 @@ tr55:
 			goto _test_eof56
 		}
 	st_case_56:
-//line uri_parse.go:2211
+//line uri_parse.go:2217
 		switch data[p] {
 		case 33:
 			goto tr104
@@ -2257,7 +2263,7 @@ tr56:
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -2268,7 +2274,7 @@ tr56:
 			goto _test_eof38
 		}
 	st_case_38:
-//line uri_parse.go:2264
+//line uri_parse.go:2270
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2293,7 +2299,7 @@ tr57:
 			goto _test_eof39
 		}
 	st_case_39:
-//line uri_parse.go:2289
+//line uri_parse.go:2295
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2308,7 +2314,7 @@ tr57:
 		}
 		goto st0
 tr107:
-//line uri_parse.rl:90
+//line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
 			amt = 0
@@ -2319,7 +2325,7 @@ tr107:
 			goto _test_eof40
 		}
 	st_case_40:
-//line uri_parse.go:2315
+//line uri_parse.go:2321
 		switch data[p] {
 		case 33:
 			goto tr59
@@ -2385,7 +2391,7 @@ tr62:
 			goto _test_eof57
 		}
 	st_case_57:
-//line uri_parse.go:2381
+//line uri_parse.go:2387
 		switch data[p] {
 		case 33:
 			goto tr108
@@ -2431,7 +2437,7 @@ tr60:
 			goto _test_eof41
 		}
 	st_case_41:
-//line uri_parse.go:2427
+//line uri_parse.go:2433
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2456,7 +2462,7 @@ tr61:
 			goto _test_eof42
 		}
 	st_case_42:
-//line uri_parse.go:2452
+//line uri_parse.go:2458
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2496,7 +2502,7 @@ tr63:
 
 			amt = 0
 		
-//line uri_parse.rl:100
+//line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -2507,7 +2513,7 @@ tr63:
 		
 	goto st44
 tr64:
-//line uri_parse.rl:100
+//line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -2522,7 +2528,7 @@ tr64:
 			goto _test_eof44
 		}
 	st_case_44:
-//line uri_parse.go:2518
+//line uri_parse.go:2524
 		switch data[p] {
 		case 46:
 			goto tr64
@@ -2553,7 +2559,7 @@ tr65:
 			goto _test_eof58
 		}
 	st_case_58:
-//line uri_parse.go:2549
+//line uri_parse.go:2555
 		switch data[p] {
 		case 58:
 			goto st30
@@ -2630,53 +2636,53 @@ tr65:
 			uri.Host = string(buf[0:amt])
 		
 		case 47, 54:
-//line uri_parse.rl:90
+//line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:112
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 		case 49, 56:
-//line uri_parse.rl:90
+//line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:113
+//line uri_parse.rl:116
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
 		case 48, 55:
-//line uri_parse.rl:95
+//line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:112
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 		case 50, 57:
-//line uri_parse.rl:95
+//line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:113
+//line uri_parse.rl:116
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
-//line uri_parse.go:2665
+//line uri_parse.go:2671
 		}
 	}
 
 	_out: {}
 	}
 
-//line uri_parse.rl:170
+//line uri_parse.rl:173
 
 	if cs < uri_first_final {
 		if p == pe {
diff --git a/sip/uri_parse.rl b/sip/uri_parse.rl
index b885453..71a6411 100644
--- a/sip/uri_parse.rl
+++ b/sip/uri_parse.rl
@@ -84,6 +84,9 @@ func ParseURI(data []byte) (uri *URI, err error) {
 		}
 
 		action port {
+			if int(uri.Port) * 10 + int(fc - 0x30) > 65535 {
+				return nil, errors.New(fmt.Sprintf("Error in URI at pos %d: %s", p, data))
+			}
 			uri.Port = uri.Port * 10 + uint16(fc - 0x30)
 		}
 
-- 
2.43.0


From 914b62ac08eeb2987399fd20cc91a3c0183ee573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 43/58] fix: messages of other SIP versions ended calls they
 didn't belong to

---
 dialog/dialog.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 99102a7..81711ab 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -305,13 +305,6 @@ func (dls *dialogState) populate(msg *sip.Msg) {
 }
 
 func (dls *dialogState) handleMessage(msg *sip.Msg) bool {
-	if msg.VersionMajor != 2 || msg.VersionMinor != 0 {
-		if wantsResponse(msg) && !dls.send(NewResponse(msg, sip.StatusVersionNotSupported)) {
-			return false
-		}
-		dls.errChan <- errors.New("Remote UA is using a strange SIP version")
-		return false
-	}
 	if msg.CallID != dls.request.CallID {
 		log.Printf("Received message doesn't match dialog\r\n")
 		if !wantsResponse(msg) {
@@ -319,6 +312,17 @@ func (dls *dialogState) handleMessage(msg *sip.Msg) bool {
 		}
 		return dls.send(NewResponse(msg, sip.StatusCallTransactionDoesNotExist))
 	}
+	if msg.VersionMajor != 2 || msg.VersionMinor != 0 {
+		if msg.IsResponse() && !ResponseMatch(dls.request, msg) {
+			log.Printf("Received response doesn't match transaction\r\n")
+			return true
+		}
+		if wantsResponse(msg) && !dls.send(NewResponse(msg, sip.StatusVersionNotSupported)) {
+			return false
+		}
+		dls.errChan <- errors.New("Remote UA is using a strange SIP version")
+		return false
+	}
 	if msg.IsResponse() {
 		return dls.handleResponse(msg)
 	} else {
-- 
2.43.0


From 56a23bd675f4b2f3912ffa86bcf8bccc6850d53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:13 +0000
Subject: [PATCH 44/58] fix: connection address of audio was ignored when
 session has one, too

---
 sdp/sdp.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/sdp/sdp.go b/sdp/sdp.go
index e1db097..fc2c786 100755
--- a/sdp/sdp.go
+++ b/sdp/sdp.go
@@ -141,7 +141,8 @@ func Parse(s string) (sdp *SDP, err error) {
 	sdp.Attrs = make([][2]string, 0, len(lines))
 
 	// Extract information from SDP.
-	var okOrigin, okConn bool
+	var okOrigin, okConn, inAudio bool
+	var audioAddr string // Overrides session's connection address.
 	for _, line := range lines {
 		switch {
 		case line == "":
@@ -151,8 +152,10 @@ func Parse(s string) (sdp *SDP, err error) {
 			continue
 		case line[0] == 'm': // media line
 			line = line[2:]
-			if strings.HasPrefix(line, "audio ") {
+			inAudio = strings.HasPrefix(line, "audio ")
+			if inAudio {
 				audioinfo = line[6:]
+				audioAddr = ""
 			} else if strings.HasPrefix(line, "video ") {
 				videoinfo = line[6:]
 			} else {
@@ -163,14 +166,20 @@ func Parse(s string) (sdp *SDP, err error) {
 		case line[0] == 't': // active time
 			sdp.Time = line[2:]
 		case line[0] == 'c': // connect to this ip address
-			if okConn {
+			if okConn && !inAudio {
 				log.Println("Dropping extra c= line in sdp:", line)
 				continue
 			}
-			sdp.Addr, err = parseConnLine(line)
+			addr, err := parseConnLine(line)
 			if err != nil {
 				return nil, err
 			}
+			if !okConn {
+				sdp.Addr = addr
+			}
+			if inAudio && audioAddr == "" {
+				audioAddr = addr
+			}
 			okConn = true
 		case line[0] == 'o': // origin line
 			err = parseOriginLine(&sdp.Origin, line)
@@ -235,6 +244,9 @@ func Parse(s string) (sdp *SDP, err error) {
 	if !okConn || !okOrigin {
 		return nil, errors.New("sdp missing mandatory information")
 	}
+	if audioAddr != "" {
+		sdp.Addr = audioAddr
+	}
 
 	// Assemble audio/video information.
 	var pts []uint8
-- 
2.43.0


From dc9db33879ea3eb1c5be1fd3e7f567c195e0fe73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:59 +0000
Subject: [PATCH 45/58] fix: codecs of audio and video having the same number
 were mixed up

---
 sdp/sdp.go | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/sdp/sdp.go b/sdp/sdp.go
index fc2c786..25e31c1 100755
--- a/sdp/sdp.go
+++ b/sdp/sdp.go
@@ -134,14 +134,13 @@ func Parse(s string) (sdp *SDP, err error) {
 	// We abstract the structure of the media lines so we need a place to store
 	// them before assembling the audio/video data structures.
 	var audioinfo, videoinfo string
-	rtpmaps := make([]string, len(lines))
-	rtpmapcnt := 0
-	fmtps := make([]string, len(lines))
-	fmtpcnt := 0
+	rtpmaps := make(map[string][]string) // Media types may use a number each.
+	fmtps := make(map[string][]string)
 	sdp.Attrs = make([][2]string, 0, len(lines))
 
 	// Extract information from SDP.
-	var okOrigin, okConn, inAudio bool
+	var okOrigin, okConn bool
+	var section string   // What kind of media lines are about.
 	var audioAddr string // Overrides session's connection address.
 	for _, line := range lines {
 		switch {
@@ -152,11 +151,13 @@ func Parse(s string) (sdp *SDP, err error) {
 			continue
 		case line[0] == 'm': // media line
 			line = line[2:]
-			inAudio = strings.HasPrefix(line, "audio ")
-			if inAudio {
+			section = ""
+			if strings.HasPrefix(line, "audio ") {
+				section = "audio"
 				audioinfo = line[6:]
 				audioAddr = ""
 			} else if strings.HasPrefix(line, "video ") {
+				section = "video"
 				videoinfo = line[6:]
 			} else {
 				log.Println("Unsupported SDP media line:", line)
@@ -166,7 +167,7 @@ func Parse(s string) (sdp *SDP, err error) {
 		case line[0] == 't': // active time
 			sdp.Time = line[2:]
 		case line[0] == 'c': // connect to this ip address
-			if okConn && !inAudio {
+			if okConn && section != "audio" {
 				log.Println("Dropping extra c= line in sdp:", line)
 				continue
 			}
@@ -177,7 +178,7 @@ func Parse(s string) (sdp *SDP, err error) {
 			if !okConn {
 				sdp.Addr = addr
 			}
-			if inAudio && audioAddr == "" {
+			if section == "audio" && audioAddr == "" {
 				audioAddr = addr
 			}
 			okConn = true
@@ -191,11 +192,9 @@ func Parse(s string) (sdp *SDP, err error) {
 			line = line[2:]
 			switch {
 			case strings.HasPrefix(line, "rtpmap:"):
-				rtpmaps[rtpmapcnt] = line[7:]
-				rtpmapcnt++
+				rtpmaps[section] = append(rtpmaps[section], line[7:])
 			case strings.HasPrefix(line, "fmtp:"):
-				fmtps[fmtpcnt] = line[5:]
-				fmtpcnt++
+				fmtps[section] = append(fmtps[section], line[5:])
 			case strings.HasPrefix(line, "ptime:"):
 				ptimeS := line[6:]
 				if ptime, err := strconv.Atoi(ptimeS); err == nil && ptime > 0 {
@@ -238,8 +237,6 @@ func Parse(s string) (sdp *SDP, err error) {
 			}
 		}
 	}
-	rtpmaps = rtpmaps[0:rtpmapcnt]
-	fmtps = fmtps[0:fmtpcnt]
 
 	if !okConn || !okOrigin {
 		return nil, errors.New("sdp missing mandatory information")
@@ -248,6 +245,15 @@ func Parse(s string) (sdp *SDP, err error) {
 		sdp.Addr = audioAddr
 	}
 
+	// Remotes that are sloppy put these lines anywhere.
+	about := func(lines map[string][]string, section string) (res []string) {
+		res = append(append(res, lines[section]...), lines[""]...)
+		if len(rtpmaps[section]) == 0 {
+			res = append(append(res, lines["audio"]...), lines["video"]...)
+		}
+		return res
+	}
+
 	// Assemble audio/video information.
 	var pts []uint8
 
@@ -257,7 +263,7 @@ func Parse(s string) (sdp *SDP, err error) {
 		if err != nil {
 			return nil, err
 		}
-		err = populateCodecs(sdp.Audio, pts, rtpmaps, fmtps)
+		err = populateCodecs(sdp.Audio, pts, about(rtpmaps, "audio"), about(fmtps, "audio"))
 		if err != nil {
 			return nil, err
 		}
@@ -271,7 +277,7 @@ func Parse(s string) (sdp *SDP, err error) {
 		if err != nil {
 			return nil, err
 		}
-		err = populateCodecs(sdp.Video, pts, rtpmaps, fmtps)
+		err = populateCodecs(sdp.Video, pts, about(rtpmaps, "video"), about(fmtps, "video"))
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From f6f43bd06ce9f0441cbb276e00a15b5142cb9d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:40 +0000
Subject: [PATCH 46/58] fix: URI headers with empty values made messages
 malformed

---
 sip/uri_parse.go | 1085 +++++++++++++++++++++++-----------------------
 sip/uri_parse.rl |    2 +-
 sip/uriheader.go |    6 +-
 3 files changed, 554 insertions(+), 539 deletions(-)

diff --git a/sip/uri_parse.go b/sip/uri_parse.go
index 5330994..a4bf0be 100644
--- a/sip/uri_parse.go
+++ b/sip/uri_parse.go
@@ -28,10 +28,10 @@ import (
 
 //line uri_parse.go:27
 const uri_start int = 1
-const uri_first_final int = 45
+const uri_first_final int = 43
 const uri_error int = 0
 
-const uri_en_uriSansUser int = 27
+const uri_en_uriSansUser int = 26
 const uri_en_uriWithUser int = 1
 
 
@@ -99,54 +99,58 @@ func ParseURI(data []byte) (uri *URI, err error) {
 		goto st_case_10
 	case 11:
 		goto st_case_11
-	case 45:
-		goto st_case_45
+	case 43:
+		goto st_case_43
 	case 12:
 		goto st_case_12
-	case 46:
-		goto st_case_46
+	case 44:
+		goto st_case_44
 	case 13:
 		goto st_case_13
-	case 47:
-		goto st_case_47
+	case 45:
+		goto st_case_45
 	case 14:
 		goto st_case_14
 	case 15:
 		goto st_case_15
 	case 16:
 		goto st_case_16
-	case 48:
-		goto st_case_48
+	case 46:
+		goto st_case_46
 	case 17:
 		goto st_case_17
 	case 18:
 		goto st_case_18
 	case 19:
 		goto st_case_19
-	case 49:
-		goto st_case_49
+	case 47:
+		goto st_case_47
 	case 20:
 		goto st_case_20
 	case 21:
 		goto st_case_21
+	case 48:
+		goto st_case_48
+	case 49:
+		goto st_case_49
 	case 22:
 		goto st_case_22
-	case 50:
-		goto st_case_50
 	case 23:
 		goto st_case_23
 	case 24:
 		goto st_case_24
 	case 25:
 		goto st_case_25
+	case 50:
+		goto st_case_50
 	case 26:
 		goto st_case_26
-	case 51:
-		goto st_case_51
 	case 27:
 		goto st_case_27
 	case 28:
 		goto st_case_28
+	case 51:
+		goto st_case_51
 	case 29:
 		goto st_case_29
 	case 52:
@@ -157,40 +161,36 @@ func ParseURI(data []byte) (uri *URI, err error) {
 		goto st_case_53
 	case 31:
 		goto st_case_31
-	case 54:
-		goto st_case_54
 	case 32:
 		goto st_case_32
 	case 33:
 		goto st_case_33
+	case 54:
+		goto st_case_54
 	case 34:
 		goto st_case_34
-	case 55:
-		goto st_case_55
 	case 35:
 		goto st_case_35
 	case 36:
 		goto st_case_36
+	case 55:
+		goto st_case_55
 	case 37:
 		goto st_case_37
-	case 56:
-		goto st_case_56
 	case 38:
 		goto st_case_38
+	case 56:
+		goto st_case_56
+	case 57:
+		goto st_case_57
 	case 39:
 		goto st_case_39
 	case 40:
 		goto st_case_40
-	case 57:
-		goto st_case_57
 	case 41:
 		goto st_case_41
 	case 42:
 		goto st_case_42
-	case 43:
-		goto st_case_43
-	case 44:
-		goto st_case_44
 	case 58:
 		goto st_case_58
 	}
@@ -595,7 +595,7 @@ tr16:
 		case 43:
 			goto tr19
 		case 91:
-			goto st25
+			goto st24
 		}
 		switch {
 		case data[p] < 48:
@@ -629,8 +629,8 @@ tr19:
 			}
 			amt++
 		
-	goto st45
-tr66:
+	goto st43
+tr62:
 //line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
@@ -640,42 +640,42 @@ tr66:
 			}
 			amt++
 		
-	goto st45
-	st45:
+	goto st43
+	st43:
 		if p++; p == pe {
-			goto _test_eof45
+			goto _test_eof43
 		}
-	st_case_45:
+	st_case_43:
 //line uri_parse.go:642
 		switch data[p] {
 		case 43:
-			goto tr66
+			goto tr62
 		case 58:
-			goto tr67
+			goto tr63
 		case 59:
-			goto tr68
+			goto tr64
 		case 63:
-			goto tr69
+			goto tr65
 		}
 		switch {
 		case data[p] < 48:
 			if 45 <= data[p] && data[p] <= 46 {
-				goto tr66
+				goto tr62
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr66
+					goto tr62
 				}
 			case data[p] >= 65:
-				goto tr66
+				goto tr62
 			}
 		default:
-			goto tr66
+			goto tr62
 		}
 		goto st0
-tr67:
+tr63:
 //line uri_parse.rl:82
 
 			uri.Host = string(buf[0:amt])
@@ -699,12 +699,12 @@ tr21:
 			}
 			uri.Port = uri.Port * 10 + uint16(data[p] - 0x30)
 		
-	goto st46
-	st46:
+	goto st44
+	st44:
 		if p++; p == pe {
-			goto _test_eof46
+			goto _test_eof44
 		}
-	st_case_46:
+	st_case_44:
 //line uri_parse.go:701
 		switch data[p] {
 		case 59:
@@ -716,13 +716,13 @@ tr21:
 			goto tr21
 		}
 		goto st0
-tr68:
+tr64:
 //line uri_parse.rl:82
 
 			uri.Host = string(buf[0:amt])
 		
 	goto st13
-tr74:
+tr70:
 //line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
@@ -733,7 +733,7 @@ tr74:
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st13
-tr79:
+tr75:
 //line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
@@ -780,13 +780,13 @@ tr79:
 			goto tr22
 		}
 		goto st0
-tr72:
+tr68:
 //line uri_parse.rl:47
 
 			buf[amt] = data[p]
 			amt++
 		
-	goto st47
+	goto st45
 tr25:
 //line uri_parse.rl:56
 
@@ -794,7 +794,7 @@ tr25:
 			buf[amt] = hex
 			amt++
 		
-	goto st47
+	goto st45
 tr22:
 //line uri_parse.rl:43
 
@@ -810,47 +810,47 @@ tr22:
 			buf[amt] = data[p]
 			amt++
 		
-	goto st47
-	st47:
+	goto st45
+	st45:
 		if p++; p == pe {
-			goto _test_eof47
+			goto _test_eof45
 		}
-	st_case_47:
+	st_case_45:
 //line uri_parse.go:812
 		switch data[p] {
 		case 33:
-			goto tr72
+			goto tr68
 		case 37:
 			goto st14
 		case 59:
-			goto tr74
+			goto tr70
 		case 61:
-			goto tr75
+			goto tr71
 		case 63:
-			goto tr76
-		case 93:
 			goto tr72
+		case 93:
+			goto tr68
 		case 95:
-			goto tr72
+			goto tr68
 		case 126:
-			goto tr72
+			goto tr68
 		}
 		switch {
 		case data[p] < 45:
 			if 36 <= data[p] && data[p] <= 43 {
-				goto tr72
+				goto tr68
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr72
+					goto tr68
 				}
 			case data[p] >= 65:
-				goto tr72
+				goto tr68
 			}
 		default:
-			goto tr72
+			goto tr68
 		}
 		goto st0
 tr23:
@@ -908,7 +908,7 @@ tr24:
 			goto tr25
 		}
 		goto st0
-tr75:
+tr71:
 //line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
@@ -961,14 +961,14 @@ tr26:
 			buf[amt] = data[p]
 			amt++
 		
-	goto st48
-tr77:
+	goto st46
+tr73:
 //line uri_parse.rl:47
 
 			buf[amt] = data[p]
 			amt++
 		
-	goto st48
+	goto st46
 tr29:
 //line uri_parse.rl:56
 
@@ -976,45 +976,45 @@ tr29:
 			buf[amt] = hex
 			amt++
 		
-	goto st48
-	st48:
+	goto st46
+	st46:
 		if p++; p == pe {
-			goto _test_eof48
+			goto _test_eof46
 		}
-	st_case_48:
+	st_case_46:
 //line uri_parse.go:978
 		switch data[p] {
 		case 33:
-			goto tr77
+			goto tr73
 		case 37:
 			goto st17
 		case 59:
-			goto tr79
+			goto tr75
 		case 63:
-			goto tr80
+			goto tr76
 		case 93:
-			goto tr77
+			goto tr73
 		case 95:
-			goto tr77
+			goto tr73
 		case 126:
-			goto tr77
+			goto tr73
 		}
 		switch {
 		case data[p] < 45:
 			if 36 <= data[p] && data[p] <= 43 {
-				goto tr77
+				goto tr73
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr77
+					goto tr73
 				}
 			case data[p] >= 65:
-				goto tr77
+				goto tr73
 			}
 		default:
-			goto tr77
+			goto tr73
 		}
 		goto st0
 tr27:
@@ -1067,13 +1067,13 @@ tr28:
 			goto tr29
 		}
 		goto st0
-tr69:
+tr65:
 //line uri_parse.rl:82
 
 			uri.Host = string(buf[0:amt])
 		
 	goto st19
-tr76:
+tr72:
 //line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
@@ -1084,7 +1084,7 @@ tr76:
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st19
-tr80:
+tr76:
 //line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
@@ -1095,7 +1095,7 @@ tr80:
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st19
-tr83:
+tr79:
 //line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
@@ -1106,7 +1106,13 @@ tr83:
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
 	goto st19
-tr87:
+tr83:
+//line uri_parse.rl:116
+
+			uri.Header = &URIHeader{b1, b2, uri.Header}
+		
+	goto st19
+tr86:
 //line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
@@ -1122,7 +1128,7 @@ tr87:
 			goto _test_eof19
 		}
 	st_case_19:
-//line uri_parse.go:1118
+//line uri_parse.go:1124
 		switch data[p] {
 		case 33:
 			goto tr30
@@ -1157,13 +1163,13 @@ tr87:
 			goto tr30
 		}
 		goto st0
-tr81:
+tr77:
 //line uri_parse.rl:47
 
 			buf[amt] = data[p]
 			amt++
 		
-	goto st49
+	goto st47
 tr33:
 //line uri_parse.rl:56
 
@@ -1171,7 +1177,7 @@ tr33:
 			buf[amt] = hex
 			amt++
 		
-	goto st49
+	goto st47
 tr30:
 //line uri_parse.rl:43
 
@@ -1187,47 +1193,47 @@ tr30:
 			buf[amt] = data[p]
 			amt++
 		
-	goto st49
-	st49:
+	goto st47
+	st47:
 		if p++; p == pe {
-			goto _test_eof49
+			goto _test_eof47
 		}
-	st_case_49:
-//line uri_parse.go:1189
+	st_case_47:
+//line uri_parse.go:1195
 		switch data[p] {
 		case 33:
-			goto tr81
+			goto tr77
 		case 37:
 			goto st20
 		case 38:
-			goto tr83
+			goto tr79
 		case 61:
-			goto tr84
+			goto tr80
 		case 63:
-			goto tr81
+			goto tr77
 		case 93:
-			goto tr81
+			goto tr77
 		case 95:
-			goto tr81
+			goto tr77
 		case 126:
-			goto tr81
+			goto tr77
 		}
 		switch {
 		case data[p] < 45:
 			if 36 <= data[p] && data[p] <= 43 {
-				goto tr81
+				goto tr77
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr81
+					goto tr77
 				}
 			case data[p] >= 65:
-				goto tr81
+				goto tr77
 			}
 		default:
-			goto tr81
+			goto tr77
 		}
 		goto st0
 tr31:
@@ -1246,7 +1252,7 @@ tr31:
 			goto _test_eof20
 		}
 	st_case_20:
-//line uri_parse.go:1242
+//line uri_parse.go:1248
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1271,7 +1277,7 @@ tr32:
 			goto _test_eof21
 		}
 	st_case_21:
-//line uri_parse.go:1267
+//line uri_parse.go:1273
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1285,54 +1291,54 @@ tr32:
 			goto tr33
 		}
 		goto st0
-tr84:
+tr80:
 //line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-	goto st22
-	st22:
+	goto st48
+	st48:
 		if p++; p == pe {
-			goto _test_eof22
+			goto _test_eof48
 		}
-	st_case_22:
-//line uri_parse.go:1293
+	st_case_48:
+//line uri_parse.go:1299
 		switch data[p] {
 		case 33:
-			goto tr34
-		case 36:
-			goto tr34
+			goto tr81
 		case 37:
-			goto tr35
+			goto tr82
+		case 38:
+			goto tr83
 		case 63:
-			goto tr34
+			goto tr81
 		case 93:
-			goto tr34
+			goto tr81
 		case 95:
-			goto tr34
+			goto tr81
 		case 126:
-			goto tr34
+			goto tr81
 		}
 		switch {
 		case data[p] < 45:
-			if 39 <= data[p] && data[p] <= 43 {
-				goto tr34
+			if 36 <= data[p] && data[p] <= 43 {
+				goto tr81
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr34
+					goto tr81
 				}
 			case data[p] >= 65:
-				goto tr34
+				goto tr81
 			}
 		default:
-			goto tr34
+			goto tr81
 		}
 		goto st0
-tr34:
+tr81:
 //line uri_parse.rl:43
 
 			amt = 0
@@ -1342,134 +1348,134 @@ tr34:
 			buf[amt] = data[p]
 			amt++
 		
-	goto st50
-tr85:
+	goto st49
+tr84:
 //line uri_parse.rl:47
 
 			buf[amt] = data[p]
 			amt++
 		
-	goto st50
-tr37:
+	goto st49
+tr35:
 //line uri_parse.rl:56
 
 			hex += unhex(data[p])
 			buf[amt] = hex
 			amt++
 		
-	goto st50
-	st50:
+	goto st49
+	st49:
 		if p++; p == pe {
-			goto _test_eof50
+			goto _test_eof49
 		}
-	st_case_50:
-//line uri_parse.go:1359
+	st_case_49:
+//line uri_parse.go:1365
 		switch data[p] {
 		case 33:
-			goto tr85
+			goto tr84
 		case 37:
-			goto st23
+			goto st22
 		case 38:
-			goto tr87
+			goto tr86
 		case 63:
-			goto tr85
+			goto tr84
 		case 93:
-			goto tr85
+			goto tr84
 		case 95:
-			goto tr85
+			goto tr84
 		case 126:
-			goto tr85
+			goto tr84
 		}
 		switch {
 		case data[p] < 45:
 			if 36 <= data[p] && data[p] <= 43 {
-				goto tr85
+				goto tr84
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr85
+					goto tr84
 				}
 			case data[p] >= 65:
-				goto tr85
+				goto tr84
 			}
 		default:
-			goto tr85
+			goto tr84
 		}
 		goto st0
-tr35:
+tr82:
 //line uri_parse.rl:43
 
 			amt = 0
 		
-	goto st23
-	st23:
+	goto st22
+	st22:
 		if p++; p == pe {
-			goto _test_eof23
+			goto _test_eof22
 		}
-	st_case_23:
-//line uri_parse.go:1405
+	st_case_22:
+//line uri_parse.go:1411
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
-				goto tr36
+				goto tr34
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr36
+				goto tr34
 			}
 		default:
-			goto tr36
+			goto tr34
 		}
 		goto st0
-tr36:
+tr34:
 //line uri_parse.rl:52
 
 			hex = unhex(data[p]) * 16
 		
-	goto st24
-	st24:
+	goto st23
+	st23:
 		if p++; p == pe {
-			goto _test_eof24
+			goto _test_eof23
 		}
-	st_case_24:
-//line uri_parse.go:1430
+	st_case_23:
+//line uri_parse.go:1436
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
-				goto tr37
+				goto tr35
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr37
+				goto tr35
 			}
 		default:
-			goto tr37
+			goto tr35
 		}
 		goto st0
-	st25:
+	st24:
 		if p++; p == pe {
-			goto _test_eof25
+			goto _test_eof24
 		}
-	st_case_25:
+	st_case_24:
 		if data[p] == 46 {
-			goto tr38
+			goto tr36
 		}
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 58 {
-				goto tr38
+				goto tr36
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr38
+				goto tr36
 			}
 		default:
-			goto tr38
+			goto tr36
 		}
 		goto st0
-tr38:
+tr36:
 //line uri_parse.rl:43
 
 			amt = 0
@@ -1483,8 +1489,8 @@ tr38:
 			}
 			amt++
 		
-	goto st26
-tr39:
+	goto st25
+tr37:
 //line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
@@ -1494,44 +1500,44 @@ tr39:
 			}
 			amt++
 		
-	goto st26
-	st26:
+	goto st25
+	st25:
 		if p++; p == pe {
-			goto _test_eof26
+			goto _test_eof25
 		}
-	st_case_26:
-//line uri_parse.go:1496
+	st_case_25:
+//line uri_parse.go:1502
 		switch data[p] {
 		case 46:
-			goto tr39
+			goto tr37
 		case 93:
-			goto tr40
+			goto tr38
 		}
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 58 {
-				goto tr39
+				goto tr37
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr39
+				goto tr37
 			}
 		default:
-			goto tr39
+			goto tr37
 		}
 		goto st0
-tr40:
+tr38:
 //line uri_parse.rl:82
 
 			uri.Host = string(buf[0:amt])
 		
-	goto st51
-	st51:
+	goto st50
+	st50:
 		if p++; p == pe {
-			goto _test_eof51
+			goto _test_eof50
 		}
-	st_case_51:
-//line uri_parse.go:1527
+	st_case_50:
+//line uri_parse.go:1533
 		switch data[p] {
 		case 58:
 			goto st12
@@ -1541,17 +1547,17 @@ tr40:
 			goto st19
 		}
 		goto st0
-	st_case_27:
+	st_case_26:
 		switch {
 		case data[p] > 90:
 			if 97 <= data[p] && data[p] <= 122 {
-				goto tr41
+				goto tr39
 			}
 		case data[p] >= 65:
-			goto tr41
+			goto tr39
 		}
 		goto st0
-tr41:
+tr39:
 //line uri_parse.rl:43
 
 			amt = 0
@@ -1565,8 +1571,8 @@ tr41:
 			}
 			amt++
 		
-	goto st28
-tr42:
+	goto st27
+tr40:
 //line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
@@ -1576,74 +1582,74 @@ tr42:
 			}
 			amt++
 		
-	goto st28
-	st28:
+	goto st27
+	st27:
 		if p++; p == pe {
-			goto _test_eof28
+			goto _test_eof27
 		}
-	st_case_28:
-//line uri_parse.go:1578
+	st_case_27:
+//line uri_parse.go:1584
 		switch data[p] {
 		case 43:
-			goto tr42
+			goto tr40
 		case 58:
-			goto tr43
+			goto tr41
 		}
 		switch {
 		case data[p] < 48:
 			if 45 <= data[p] && data[p] <= 46 {
-				goto tr42
+				goto tr40
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr42
+					goto tr40
 				}
 			case data[p] >= 65:
-				goto tr42
+				goto tr40
 			}
 		default:
-			goto tr42
+			goto tr40
 		}
 		goto st0
-tr43:
+tr41:
 //line uri_parse.rl:70
 
 			uri.Scheme = string(buf[0:amt])
 		
-	goto st29
-	st29:
+	goto st28
+	st28:
 		if p++; p == pe {
-			goto _test_eof29
+			goto _test_eof28
 		}
-	st_case_29:
-//line uri_parse.go:1614
+	st_case_28:
+//line uri_parse.go:1620
 		switch data[p] {
 		case 43:
-			goto tr44
+			goto tr42
 		case 91:
-			goto st43
+			goto st41
 		}
 		switch {
 		case data[p] < 48:
 			if 45 <= data[p] && data[p] <= 46 {
-				goto tr44
+				goto tr42
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr44
+					goto tr42
 				}
 			case data[p] >= 65:
-				goto tr44
+				goto tr42
 			}
 		default:
-			goto tr44
+			goto tr42
 		}
 		goto st0
-tr44:
+tr42:
 //line uri_parse.rl:43
 
 			amt = 0
@@ -1657,8 +1663,8 @@ tr44:
 			}
 			amt++
 		
-	goto st52
-tr89:
+	goto st51
+tr88:
 //line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
@@ -1668,58 +1674,58 @@ tr89:
 			}
 			amt++
 		
-	goto st52
-	st52:
+	goto st51
+	st51:
 		if p++; p == pe {
-			goto _test_eof52
+			goto _test_eof51
 		}
-	st_case_52:
-//line uri_parse.go:1670
+	st_case_51:
+//line uri_parse.go:1676
 		switch data[p] {
 		case 43:
-			goto tr89
+			goto tr88
 		case 58:
-			goto tr90
+			goto tr89
 		case 59:
-			goto tr91
+			goto tr90
 		case 63:
-			goto tr92
+			goto tr91
 		}
 		switch {
 		case data[p] < 48:
 			if 45 <= data[p] && data[p] <= 46 {
-				goto tr89
+				goto tr88
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr89
+					goto tr88
 				}
 			case data[p] >= 65:
-				goto tr89
+				goto tr88
 			}
 		default:
-			goto tr89
+			goto tr88
 		}
 		goto st0
-tr90:
+tr89:
 //line uri_parse.rl:82
 
 			uri.Host = string(buf[0:amt])
 		
-	goto st30
-	st30:
+	goto st29
+	st29:
 		if p++; p == pe {
-			goto _test_eof30
+			goto _test_eof29
 		}
-	st_case_30:
-//line uri_parse.go:1710
+	st_case_29:
+//line uri_parse.go:1716
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr46
+			goto tr44
 		}
 		goto st0
-tr46:
+tr44:
 //line uri_parse.rl:86
 
 			if int(uri.Port) * 10 + int(data[p] - 0x30) > 65535 {
@@ -1727,30 +1733,30 @@ tr46:
 			}
 			uri.Port = uri.Port * 10 + uint16(data[p] - 0x30)
 		
-	goto st53
-	st53:
+	goto st52
+	st52:
 		if p++; p == pe {
-			goto _test_eof53
+			goto _test_eof52
 		}
-	st_case_53:
-//line uri_parse.go:1729
+	st_case_52:
+//line uri_parse.go:1735
 		switch data[p] {
 		case 59:
-			goto st31
+			goto st30
 		case 63:
-			goto st37
+			goto st36
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr46
+			goto tr44
 		}
 		goto st0
-tr91:
+tr90:
 //line uri_parse.rl:82
 
 			uri.Host = string(buf[0:amt])
 		
-	goto st31
-tr97:
+	goto st30
+tr96:
 //line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
@@ -1760,8 +1766,8 @@ tr97:
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
-	goto st31
-tr102:
+	goto st30
+tr101:
 //line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
@@ -1771,59 +1777,59 @@ tr102:
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
-	goto st31
-	st31:
+	goto st30
+	st30:
 		if p++; p == pe {
-			goto _test_eof31
+			goto _test_eof30
 		}
-	st_case_31:
-//line uri_parse.go:1773
+	st_case_30:
+//line uri_parse.go:1779
 		switch data[p] {
 		case 33:
-			goto tr47
+			goto tr45
 		case 37:
-			goto tr48
+			goto tr46
 		case 93:
-			goto tr47
+			goto tr45
 		case 95:
-			goto tr47
+			goto tr45
 		case 126:
-			goto tr47
+			goto tr45
 		}
 		switch {
 		case data[p] < 45:
 			if 36 <= data[p] && data[p] <= 43 {
-				goto tr47
+				goto tr45
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr47
+					goto tr45
 				}
 			case data[p] >= 65:
-				goto tr47
+				goto tr45
 			}
 		default:
-			goto tr47
+			goto tr45
 		}
 		goto st0
-tr95:
+tr94:
 //line uri_parse.rl:47
 
 			buf[amt] = data[p]
 			amt++
 		
-	goto st54
-tr50:
+	goto st53
+tr48:
 //line uri_parse.rl:56
 
 			hex += unhex(data[p])
 			buf[amt] = hex
 			amt++
 		
-	goto st54
-tr47:
+	goto st53
+tr45:
 //line uri_parse.rl:43
 
 			amt = 0
@@ -1838,50 +1844,50 @@ tr47:
 			buf[amt] = data[p]
 			amt++
 		
-	goto st54
-	st54:
+	goto st53
+	st53:
 		if p++; p == pe {
-			goto _test_eof54
+			goto _test_eof53
 		}
-	st_case_54:
-//line uri_parse.go:1840
+	st_case_53:
+//line uri_parse.go:1846
 		switch data[p] {
 		case 33:
-			goto tr95
+			goto tr94
 		case 37:
-			goto st32
+			goto st31
 		case 59:
-			goto tr97
+			goto tr96
 		case 61:
-			goto tr98
+			goto tr97
 		case 63:
-			goto tr99
+			goto tr98
 		case 93:
-			goto tr95
+			goto tr94
 		case 95:
-			goto tr95
+			goto tr94
 		case 126:
-			goto tr95
+			goto tr94
 		}
 		switch {
 		case data[p] < 45:
 			if 36 <= data[p] && data[p] <= 43 {
-				goto tr95
+				goto tr94
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr95
+					goto tr94
 				}
 			case data[p] >= 65:
-				goto tr95
+				goto tr94
 			}
 		default:
-			goto tr95
+			goto tr94
 		}
 		goto st0
-tr48:
+tr46:
 //line uri_parse.rl:43
 
 			amt = 0
@@ -1891,95 +1897,95 @@ tr48:
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-	goto st32
-	st32:
+	goto st31
+	st31:
 		if p++; p == pe {
-			goto _test_eof32
+			goto _test_eof31
 		}
-	st_case_32:
-//line uri_parse.go:1893
+	st_case_31:
+//line uri_parse.go:1899
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
-				goto tr49
+				goto tr47
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr49
+				goto tr47
 			}
 		default:
-			goto tr49
+			goto tr47
 		}
 		goto st0
-tr49:
+tr47:
 //line uri_parse.rl:52
 
 			hex = unhex(data[p]) * 16
 		
-	goto st33
-	st33:
+	goto st32
+	st32:
 		if p++; p == pe {
-			goto _test_eof33
+			goto _test_eof32
 		}
-	st_case_33:
-//line uri_parse.go:1918
+	st_case_32:
+//line uri_parse.go:1924
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
-				goto tr50
+				goto tr48
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr50
+				goto tr48
 			}
 		default:
-			goto tr50
+			goto tr48
 		}
 		goto st0
-tr98:
+tr97:
 //line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-	goto st34
-	st34:
+	goto st33
+	st33:
 		if p++; p == pe {
-			goto _test_eof34
+			goto _test_eof33
 		}
-	st_case_34:
-//line uri_parse.go:1944
+	st_case_33:
+//line uri_parse.go:1950
 		switch data[p] {
 		case 33:
-			goto tr51
+			goto tr49
 		case 37:
-			goto tr52
+			goto tr50
 		case 93:
-			goto tr51
+			goto tr49
 		case 95:
-			goto tr51
+			goto tr49
 		case 126:
-			goto tr51
+			goto tr49
 		}
 		switch {
 		case data[p] < 45:
 			if 36 <= data[p] && data[p] <= 43 {
-				goto tr51
+				goto tr49
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr51
+					goto tr49
 				}
 			case data[p] >= 65:
-				goto tr51
+				goto tr49
 			}
 		default:
-			goto tr51
+			goto tr49
 		}
 		goto st0
-tr51:
+tr49:
 //line uri_parse.rl:43
 
 			amt = 0
@@ -1989,119 +1995,119 @@ tr51:
 			buf[amt] = data[p]
 			amt++
 		
-	goto st55
-tr100:
+	goto st54
+tr99:
 //line uri_parse.rl:47
 
 			buf[amt] = data[p]
 			amt++
 		
-	goto st55
-tr54:
+	goto st54
+tr52:
 //line uri_parse.rl:56
 
 			hex += unhex(data[p])
 			buf[amt] = hex
 			amt++
 		
-	goto st55
-	st55:
+	goto st54
+	st54:
 		if p++; p == pe {
-			goto _test_eof55
+			goto _test_eof54
 		}
-	st_case_55:
-//line uri_parse.go:2006
+	st_case_54:
+//line uri_parse.go:2012
 		switch data[p] {
 		case 33:
-			goto tr100
+			goto tr99
 		case 37:
-			goto st35
+			goto st34
 		case 59:
-			goto tr102
+			goto tr101
 		case 63:
-			goto tr103
+			goto tr102
 		case 93:
-			goto tr100
+			goto tr99
 		case 95:
-			goto tr100
+			goto tr99
 		case 126:
-			goto tr100
+			goto tr99
 		}
 		switch {
 		case data[p] < 45:
 			if 36 <= data[p] && data[p] <= 43 {
-				goto tr100
+				goto tr99
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr100
+					goto tr99
 				}
 			case data[p] >= 65:
-				goto tr100
+				goto tr99
 			}
 		default:
-			goto tr100
+			goto tr99
 		}
 		goto st0
-tr52:
+tr50:
 //line uri_parse.rl:43
 
 			amt = 0
 		
-	goto st35
-	st35:
+	goto st34
+	st34:
 		if p++; p == pe {
-			goto _test_eof35
+			goto _test_eof34
 		}
-	st_case_35:
-//line uri_parse.go:2052
+	st_case_34:
+//line uri_parse.go:2058
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
-				goto tr53
+				goto tr51
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr53
+				goto tr51
 			}
 		default:
-			goto tr53
+			goto tr51
 		}
 		goto st0
-tr53:
+tr51:
 //line uri_parse.rl:52
 
 			hex = unhex(data[p]) * 16
 		
-	goto st36
-	st36:
+	goto st35
+	st35:
 		if p++; p == pe {
-			goto _test_eof36
+			goto _test_eof35
 		}
-	st_case_36:
-//line uri_parse.go:2077
+	st_case_35:
+//line uri_parse.go:2083
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
-				goto tr54
+				goto tr52
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr54
+				goto tr52
 			}
 		default:
-			goto tr54
+			goto tr52
 		}
 		goto st0
-tr92:
+tr91:
 //line uri_parse.rl:82
 
 			uri.Host = string(buf[0:amt])
 		
-	goto st37
-tr99:
+	goto st36
+tr98:
 //line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
@@ -2111,8 +2117,8 @@ tr99:
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
-	goto st37
-tr103:
+	goto st36
+tr102:
 //line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
@@ -2122,8 +2128,8 @@ tr103:
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
-	goto st37
-tr106:
+	goto st36
+tr105:
 //line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
@@ -2133,8 +2139,14 @@ tr106:
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
-	goto st37
-tr110:
+	goto st36
+tr109:
+//line uri_parse.rl:116
+
+			uri.Header = &URIHeader{b1, b2, uri.Header}
+		
+	goto st36
+tr112:
 //line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
@@ -2144,63 +2156,63 @@ tr110:
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
-	goto st37
-	st37:
+	goto st36
+	st36:
 		if p++; p == pe {
-			goto _test_eof37
+			goto _test_eof36
 		}
-	st_case_37:
-//line uri_parse.go:2146
+	st_case_36:
+//line uri_parse.go:2158
 		switch data[p] {
 		case 33:
-			goto tr55
+			goto tr53
 		case 36:
-			goto tr55
+			goto tr53
 		case 37:
-			goto tr56
+			goto tr54
 		case 63:
-			goto tr55
+			goto tr53
 		case 93:
-			goto tr55
+			goto tr53
 		case 95:
-			goto tr55
+			goto tr53
 		case 126:
-			goto tr55
+			goto tr53
 		}
 		switch {
 		case data[p] < 45:
 			if 39 <= data[p] && data[p] <= 43 {
-				goto tr55
+				goto tr53
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr55
+					goto tr53
 				}
 			case data[p] >= 65:
-				goto tr55
+				goto tr53
 			}
 		default:
-			goto tr55
+			goto tr53
 		}
 		goto st0
-tr104:
+tr103:
 //line uri_parse.rl:47
 
 			buf[amt] = data[p]
 			amt++
 		
-	goto st56
-tr58:
+	goto st55
+tr56:
 //line uri_parse.rl:56
 
 			hex += unhex(data[p])
 			buf[amt] = hex
 			amt++
 		
-	goto st56
-tr55:
+	goto st55
+tr53:
 //line uri_parse.rl:43
 
 			amt = 0
@@ -2215,50 +2227,50 @@ tr55:
 			buf[amt] = data[p]
 			amt++
 		
-	goto st56
-	st56:
+	goto st55
+	st55:
 		if p++; p == pe {
-			goto _test_eof56
+			goto _test_eof55
 		}
-	st_case_56:
-//line uri_parse.go:2217
+	st_case_55:
+//line uri_parse.go:2229
 		switch data[p] {
 		case 33:
-			goto tr104
+			goto tr103
 		case 37:
-			goto st38
+			goto st37
 		case 38:
-			goto tr106
+			goto tr105
 		case 61:
-			goto tr107
+			goto tr106
 		case 63:
-			goto tr104
+			goto tr103
 		case 93:
-			goto tr104
+			goto tr103
 		case 95:
-			goto tr104
+			goto tr103
 		case 126:
-			goto tr104
+			goto tr103
 		}
 		switch {
 		case data[p] < 45:
 			if 36 <= data[p] && data[p] <= 43 {
-				goto tr104
+				goto tr103
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr104
+					goto tr103
 				}
 			case data[p] >= 65:
-				goto tr104
+				goto tr103
 			}
 		default:
-			goto tr104
+			goto tr103
 		}
 		goto st0
-tr56:
+tr54:
 //line uri_parse.rl:43
 
 			amt = 0
@@ -2268,99 +2280,99 @@ tr56:
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-	goto st38
-	st38:
+	goto st37
+	st37:
 		if p++; p == pe {
-			goto _test_eof38
+			goto _test_eof37
 		}
-	st_case_38:
-//line uri_parse.go:2270
+	st_case_37:
+//line uri_parse.go:2282
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
-				goto tr57
+				goto tr55
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr57
+				goto tr55
 			}
 		default:
-			goto tr57
+			goto tr55
 		}
 		goto st0
-tr57:
+tr55:
 //line uri_parse.rl:52
 
 			hex = unhex(data[p]) * 16
 		
-	goto st39
-	st39:
+	goto st38
+	st38:
 		if p++; p == pe {
-			goto _test_eof39
+			goto _test_eof38
 		}
-	st_case_39:
-//line uri_parse.go:2295
+	st_case_38:
+//line uri_parse.go:2307
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
-				goto tr58
+				goto tr56
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr58
+				goto tr56
 			}
 		default:
-			goto tr58
+			goto tr56
 		}
 		goto st0
-tr107:
+tr106:
 //line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-	goto st40
-	st40:
+	goto st56
+	st56:
 		if p++; p == pe {
-			goto _test_eof40
+			goto _test_eof56
 		}
-	st_case_40:
-//line uri_parse.go:2321
+	st_case_56:
+//line uri_parse.go:2333
 		switch data[p] {
 		case 33:
-			goto tr59
-		case 36:
-			goto tr59
+			goto tr107
 		case 37:
-			goto tr60
+			goto tr108
+		case 38:
+			goto tr109
 		case 63:
-			goto tr59
+			goto tr107
 		case 93:
-			goto tr59
+			goto tr107
 		case 95:
-			goto tr59
+			goto tr107
 		case 126:
-			goto tr59
+			goto tr107
 		}
 		switch {
 		case data[p] < 45:
-			if 39 <= data[p] && data[p] <= 43 {
-				goto tr59
+			if 36 <= data[p] && data[p] <= 43 {
+				goto tr107
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr59
+					goto tr107
 				}
 			case data[p] >= 65:
-				goto tr59
+				goto tr107
 			}
 		default:
-			goto tr59
+			goto tr107
 		}
 		goto st0
-tr59:
+tr107:
 //line uri_parse.rl:43
 
 			amt = 0
@@ -2371,14 +2383,14 @@ tr59:
 			amt++
 		
 	goto st57
-tr108:
+tr110:
 //line uri_parse.rl:47
 
 			buf[amt] = data[p]
 			amt++
 		
 	goto st57
-tr62:
+tr58:
 //line uri_parse.rl:56
 
 			hex += unhex(data[p])
@@ -2391,113 +2403,113 @@ tr62:
 			goto _test_eof57
 		}
 	st_case_57:
-//line uri_parse.go:2387
+//line uri_parse.go:2399
 		switch data[p] {
 		case 33:
-			goto tr108
+			goto tr110
 		case 37:
-			goto st41
+			goto st39
 		case 38:
-			goto tr110
+			goto tr112
 		case 63:
-			goto tr108
+			goto tr110
 		case 93:
-			goto tr108
+			goto tr110
 		case 95:
-			goto tr108
+			goto tr110
 		case 126:
-			goto tr108
+			goto tr110
 		}
 		switch {
 		case data[p] < 45:
 			if 36 <= data[p] && data[p] <= 43 {
-				goto tr108
+				goto tr110
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr108
+					goto tr110
 				}
 			case data[p] >= 65:
-				goto tr108
+				goto tr110
 			}
 		default:
-			goto tr108
+			goto tr110
 		}
 		goto st0
-tr60:
+tr108:
 //line uri_parse.rl:43
 
 			amt = 0
 		
-	goto st41
-	st41:
+	goto st39
+	st39:
 		if p++; p == pe {
-			goto _test_eof41
+			goto _test_eof39
 		}
-	st_case_41:
-//line uri_parse.go:2433
+	st_case_39:
+//line uri_parse.go:2445
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
-				goto tr61
+				goto tr57
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr61
+				goto tr57
 			}
 		default:
-			goto tr61
+			goto tr57
 		}
 		goto st0
-tr61:
+tr57:
 //line uri_parse.rl:52
 
 			hex = unhex(data[p]) * 16
 		
-	goto st42
-	st42:
+	goto st40
+	st40:
 		if p++; p == pe {
-			goto _test_eof42
+			goto _test_eof40
 		}
-	st_case_42:
-//line uri_parse.go:2458
+	st_case_40:
+//line uri_parse.go:2470
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
-				goto tr62
+				goto tr58
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr62
+				goto tr58
 			}
 		default:
-			goto tr62
+			goto tr58
 		}
 		goto st0
-	st43:
+	st41:
 		if p++; p == pe {
-			goto _test_eof43
+			goto _test_eof41
 		}
-	st_case_43:
+	st_case_41:
 		if data[p] == 46 {
-			goto tr63
+			goto tr59
 		}
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 58 {
-				goto tr63
+				goto tr59
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr63
+				goto tr59
 			}
 		default:
-			goto tr63
+			goto tr59
 		}
 		goto st0
-tr63:
+tr59:
 //line uri_parse.rl:43
 
 			amt = 0
@@ -2511,8 +2523,8 @@ tr63:
 			}
 			amt++
 		
-	goto st44
-tr64:
+	goto st42
+tr60:
 //line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
@@ -2522,33 +2534,33 @@ tr64:
 			}
 			amt++
 		
-	goto st44
-	st44:
+	goto st42
+	st42:
 		if p++; p == pe {
-			goto _test_eof44
+			goto _test_eof42
 		}
-	st_case_44:
-//line uri_parse.go:2524
+	st_case_42:
+//line uri_parse.go:2536
 		switch data[p] {
 		case 46:
-			goto tr64
+			goto tr60
 		case 93:
-			goto tr65
+			goto tr61
 		}
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 58 {
-				goto tr64
+				goto tr60
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr64
+				goto tr60
 			}
 		default:
-			goto tr64
+			goto tr60
 		}
 		goto st0
-tr65:
+tr61:
 //line uri_parse.rl:82
 
 			uri.Host = string(buf[0:amt])
@@ -2559,14 +2571,14 @@ tr65:
 			goto _test_eof58
 		}
 	st_case_58:
-//line uri_parse.go:2555
+//line uri_parse.go:2567
 		switch data[p] {
 		case 58:
-			goto st30
+			goto st29
 		case 59:
-			goto st31
+			goto st30
 		case 63:
-			goto st37
+			goto st36
 		}
 		goto st0
 	st_out:
@@ -2580,62 +2592,67 @@ tr65:
 	_test_eof9: cs = 9; goto _test_eof
 	_test_eof10: cs = 10; goto _test_eof
 	_test_eof11: cs = 11; goto _test_eof
-	_test_eof45: cs = 45; goto _test_eof
+	_test_eof43: cs = 43; goto _test_eof
 	_test_eof12: cs = 12; goto _test_eof
-	_test_eof46: cs = 46; goto _test_eof
+	_test_eof44: cs = 44; goto _test_eof
 	_test_eof13: cs = 13; goto _test_eof
-	_test_eof47: cs = 47; goto _test_eof
+	_test_eof45: cs = 45; goto _test_eof
 	_test_eof14: cs = 14; goto _test_eof
 	_test_eof15: cs = 15; goto _test_eof
 	_test_eof16: cs = 16; goto _test_eof
-	_test_eof48: cs = 48; goto _test_eof
+	_test_eof46: cs = 46; goto _test_eof
 	_test_eof17: cs = 17; goto _test_eof
 	_test_eof18: cs = 18; goto _test_eof
 	_test_eof19: cs = 19; goto _test_eof
-	_test_eof49: cs = 49; goto _test_eof
+	_test_eof47: cs = 47; goto _test_eof
 	_test_eof20: cs = 20; goto _test_eof
 	_test_eof21: cs = 21; goto _test_eof
+	_test_eof48: cs = 48; goto _test_eof
+	_test_eof49: cs = 49; goto _test_eof
 	_test_eof22: cs = 22; goto _test_eof
-	_test_eof50: cs = 50; goto _test_eof
 	_test_eof23: cs = 23; goto _test_eof
 	_test_eof24: cs = 24; goto _test_eof
 	_test_eof25: cs = 25; goto _test_eof
-	_test_eof26: cs = 26; goto _test_eof
-	_test_eof51: cs = 51; goto _test_eof
+	_test_eof50: cs = 50; goto _test_eof
+	_test_eof27: cs = 27; goto _test_eof
 	_test_eof28: cs = 28; goto _test_eof
+	_test_eof51: cs = 51; goto _test_eof
 	_test_eof29: cs = 29; goto _test_eof
 	_test_eof52: cs = 52; goto _test_eof
 	_test_eof30: cs = 30; goto _test_eof
 	_test_eof53: cs = 53; goto _test_eof
 	_test_eof31: cs = 31; goto _test_eof
-	_test_eof54: cs = 54; goto _test_eof
 	_test_eof32: cs = 32; goto _test_eof
 	_test_eof33: cs = 33; goto _test_eof
+	_test_eof54: cs = 54; goto _test_eof
 	_test_eof34: cs = 34; goto _test_eof
-	_test_eof55: cs = 55; goto _test_eof
 	_test_eof35: cs = 35; goto _test_eof
 	_test_eof36: cs = 36; goto _test_eof
+	_test_eof55: cs = 55; goto _test_eof
 	_test_eof37: cs = 37; goto _test_eof
-	_test_eof56: cs = 56; goto _test_eof
 	_test_eof38: cs = 38; goto _test_eof
+	_test_eof56: cs = 56; goto _test_eof
+	_test_eof57: cs = 57; goto _test_eof
 	_test_eof39: cs = 39; goto _test_eof
 	_test_eof40: cs = 40; goto _test_eof
-	_test_eof57: cs = 57; goto _test_eof
 	_test_eof41: cs = 41; goto _test_eof
 	_test_eof42: cs = 42; goto _test_eof
-	_test_eof43: cs = 43; goto _test_eof
-	_test_eof44: cs = 44; goto _test_eof
 	_test_eof58: cs = 58; goto _test_eof
 
 	_test_eof: {}
 	if p == eof {
 		switch cs {
-		case 45, 52:
+		case 43, 51:
 //line uri_parse.rl:82
 
 			uri.Host = string(buf[0:amt])
 		
-		case 47, 54:
+		case 48, 56:
+//line uri_parse.rl:116
+
+			uri.Header = &URIHeader{b1, b2, uri.Header}
+		
+		case 45, 53:
 //line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
@@ -2645,7 +2662,7 @@ tr65:
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
-		case 49, 56:
+		case 47, 55:
 //line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
@@ -2655,7 +2672,7 @@ tr65:
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
-		case 48, 55:
+		case 46, 54:
 //line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
@@ -2665,7 +2682,7 @@ tr65:
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
-		case 50, 57:
+		case 49, 57:
 //line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
@@ -2675,7 +2692,7 @@ tr65:
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
-//line uri_parse.go:2671
+//line uri_parse.go:2688
 		}
 	}
 
diff --git a/sip/uri_parse.rl b/sip/uri_parse.rl
index 71a6411..466d315 100644
--- a/sip/uri_parse.rl
+++ b/sip/uri_parse.rl
@@ -151,7 +151,7 @@ func ParseURI(data []byte) (uri *URI, err error) {
 		param           = ";" paramkey ( "=" paramval )? %param;
 		headerkey       = headerchar+ >start >b2 %b1;
 		headerval       = headerchar+ >start %b2;
-		header          = headerkey ( "=" headerval )? %header;
+		header          = headerkey ( "=" headerval? )? %header;
 		headers         = "?" header ( "&" header )*;
 		userpass        = user ( ":" pass )?;
 		hostport        = host ( ":" port )?;
diff --git a/sip/uriheader.go b/sip/uriheader.go
index 7c26389..49826cc 100644
--- a/sip/uriheader.go
+++ b/sip/uriheader.go
@@ -51,8 +51,6 @@ func (p *URIHeader) Append(b *bytes.Buffer) {
 		b.WriteByte('?')
 	}
 	appendEscaped(b, []byte(p.Name), paramc)
-	if p.Value != "" {
-		b.WriteByte('=')
-		appendEscaped(b, []byte(p.Value), paramc)
-	}
+	b.WriteByte('=') // Mandatory, unlike that of parameters.
+	appendEscaped(b, []byte(p.Value), paramc)
 }
-- 
2.43.0


From 5772e4b97d00109df83eddf44c1e1c7c59720c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 47/58] fix: IPv6 address in received parameter was quoted

---
 sip/param.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sip/param.go b/sip/param.go
index 15eb168..a7d343e 100644
--- a/sip/param.go
+++ b/sip/param.go
@@ -18,6 +18,7 @@ package sip
 
 import (
 	"bytes"
+	"net"
 	"strings"
 )
 
@@ -49,7 +50,9 @@ func (p *Param) Append(b *bytes.Buffer) {
 	appendSanitized(b, []byte(p.Name), tokenc)
 	if p.Value != "" {
 		b.WriteByte('=')
-		if strings.IndexByte(p.Value, ' ') >= 0 {
+		if strings.EqualFold(p.Name, "received") && net.ParseIP(p.Value) != nil {
+			b.WriteString(p.Value) // Never quoted, not even with colons.
+		} else if strings.IndexByte(p.Value, ' ') >= 0 {
 			appendQuoteQuoted(b, []byte(p.Value)) // Unlike display names.
 		} else {
 			appendQuoted(b, []byte(p.Value))
-- 
2.43.0


From db1f2575ebcb54ba57bbdedeeaa56e74417c23fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:03 +0000
Subject: [PATCH 48/58] fix: bytes after the body made messages malformed
 instead of being discarded

---
 sip/msg_parse.go | 7 ++++---
 sip/msg_parse.rl | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index 846c243..156529c 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -17057,17 +17057,18 @@ tr727:
 	}
 
 	if clen > 0 {
-		if clen != len(data) - p {
+		if clen > len(data) - p {
 			return nil, errors.New(fmt.Sprintf("Content-Length incorrect: %d != %d", clen, len(data) - p))
 		}
+		body := data[p:p+clen] // RFC3261 18.3: Discard what follows.
 		if ctype == sdp.ContentType {
-			ms, err := sdp.Parse(string(data[p:len(data)]))
+			ms, err := sdp.Parse(string(body))
 			if err != nil {
 				return nil, err
 			}
 			msg.Payload = ms
 		} else {
-			msg.Payload = &MiscPayload{T: ctype, D: data[p:len(data)]}
+			msg.Payload = &MiscPayload{T: ctype, D: body}
 		}
 	}
 	return msg, nil
diff --git a/sip/msg_parse.rl b/sip/msg_parse.rl
index 1ba07c7..711d1f1 100644
--- a/sip/msg_parse.rl
+++ b/sip/msg_parse.rl
@@ -67,17 +67,18 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 	}
 
 	if clen > 0 {
-		if clen != len(data) - p {
+		if clen > len(data) - p {
 			return nil, errors.New(fmt.Sprintf("Content-Length incorrect: %d != %d", clen, len(data) - p))
 		}
+		body := data[p:p+clen] // RFC3261 18.3: Discard what follows.
 		if ctype == sdp.ContentType {
-			ms, err := sdp.Parse(string(data[p:len(data)]))
+			ms, err := sdp.Parse(string(body))
 			if err != nil {
 				return nil, err
 			}
 			msg.Payload = ms
 		} else {
-			msg.Payload = &MiscPayload{T: ctype, D: data[p:len(data)]}
+			msg.Payload = &MiscPayload{T: ctype, D: body}
 		}
 	}
 	return msg, nil
-- 
2.43.0


From ffe0edab8a221f4239031c18bb5d32f12dd397e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:04 +0000
Subject: [PATCH 49/58] fix: ampersands in URI headers were written without
 escaping

---
 sip/uriheader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/uriheader.go b/sip/uriheader.go
index 49826cc..9616598 100644
--- a/sip/uriheader.go
+++ b/sip/uriheader.go
@@ -50,7 +50,7 @@ func (p *URIHeader) Append(b *bytes.Buffer) {
 	} else {
 		b.WriteByte('?')
 	}
-	appendEscaped(b, []byte(p.Name), paramc)
+	appendEscaped(b, []byte(p.Name), headerc)
 	b.WriteByte('=') // Mandatory, unlike that of parameters.
-	appendEscaped(b, []byte(p.Value), paramc)
+	appendEscaped(b, []byte(p.Value), headerc)
 }
-- 
2.43.0


From 57ca89ba7559bbe39e554064163d396edbf31a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:51 +0000
Subject: [PATCH 50/58] fix: SIP version was compared case-sensitively

---
 sip/msg_parse.go | 333 +++++++++++++++++++++++++----------------------
 sip/sip.rl       |   2 +-
 2 files changed, 175 insertions(+), 160 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index 156529c..3d70038 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -1620,6 +1620,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 			goto tr0
 		case 83:
 			goto tr2
+		case 115:
+			goto tr2
 		case 126:
 			goto tr0
 		}
@@ -1654,7 +1656,7 @@ tr398:
 	{goto st263 }
 
 	goto st0
-//line msg_parse.go:1649
+//line msg_parse.go:1651
 st_case_0:
 	st0:
 		cs = 0
@@ -1670,7 +1672,7 @@ tr0:
 			goto _test_eof2
 		}
 	st_case_2:
-//line msg_parse.go:1665
+//line msg_parse.go:1667
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -1717,7 +1719,7 @@ tr3:
 			goto _test_eof3
 		}
 	st_case_3:
-//line msg_parse.go:1712
+//line msg_parse.go:1714
 		if data[p] == 32 {
 			goto st0
 		}
@@ -1733,7 +1735,7 @@ tr5:
 			goto _test_eof4
 		}
 	st_case_4:
-//line msg_parse.go:1728
+//line msg_parse.go:1730
 		if data[p] == 32 {
 			goto tr7
 		}
@@ -1750,8 +1752,11 @@ tr7:
 			goto _test_eof5
 		}
 	st_case_5:
-//line msg_parse.go:1745
-		if data[p] == 83 {
+//line msg_parse.go:1747
+		switch data[p] {
+		case 83:
+			goto st6
+		case 115:
 			goto st6
 		}
 		goto st0
@@ -1760,7 +1765,10 @@ tr7:
 			goto _test_eof6
 		}
 	st_case_6:
-		if data[p] == 73 {
+		switch data[p] {
+		case 73:
+			goto st7
+		case 105:
 			goto st7
 		}
 		goto st0
@@ -1769,7 +1777,10 @@ tr7:
 			goto _test_eof7
 		}
 	st_case_7:
-		if data[p] == 80 {
+		switch data[p] {
+		case 80:
+			goto st8
+		case 112:
 			goto st8
 		}
 		goto st0
@@ -1805,7 +1816,7 @@ tr12:
 			goto _test_eof10
 		}
 	st_case_10:
-//line msg_parse.go:1800
+//line msg_parse.go:1811
 		if data[p] == 46 {
 			goto st11
 		}
@@ -1836,7 +1847,7 @@ tr14:
 			goto _test_eof12
 		}
 	st_case_12:
-//line msg_parse.go:1831
+//line msg_parse.go:1842
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -1872,7 +1883,7 @@ tr43:
 			goto _test_eof13
 		}
 	st_case_13:
-//line msg_parse.go:1867
+//line msg_parse.go:1878
 		if data[p] == 10 {
 			goto tr16
 		}
@@ -1886,7 +1897,7 @@ tr16:
 			goto _test_eof748
 		}
 	st_case_748:
-//line msg_parse.go:1881
+//line msg_parse.go:1892
 		goto st0
 tr2:
 //line sip.rl:80
@@ -1899,7 +1910,7 @@ tr2:
 			goto _test_eof14
 		}
 	st_case_14:
-//line msg_parse.go:1894
+//line msg_parse.go:1905
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -1911,6 +1922,8 @@ tr2:
 			goto st2
 		case 73:
 			goto st15
+		case 105:
+			goto st15
 		case 126:
 			goto st2
 		}
@@ -1953,6 +1966,8 @@ tr2:
 			goto st2
 		case 80:
 			goto st16
+		case 112:
+			goto st16
 		case 126:
 			goto st2
 		}
@@ -2039,7 +2054,7 @@ tr20:
 			goto _test_eof18
 		}
 	st_case_18:
-//line msg_parse.go:2034
+//line msg_parse.go:2049
 		if data[p] == 46 {
 			goto st19
 		}
@@ -2070,7 +2085,7 @@ tr22:
 			goto _test_eof20
 		}
 	st_case_20:
-//line msg_parse.go:2065
+//line msg_parse.go:2080
 		if data[p] == 32 {
 			goto st21
 		}
@@ -2098,7 +2113,7 @@ tr24:
 			goto _test_eof22
 		}
 	st_case_22:
-//line msg_parse.go:2093
+//line msg_parse.go:2108
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr25
 		}
@@ -2114,7 +2129,7 @@ tr25:
 			goto _test_eof23
 		}
 	st_case_23:
-//line msg_parse.go:2109
+//line msg_parse.go:2124
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr26
 		}
@@ -2130,7 +2145,7 @@ tr26:
 			goto _test_eof24
 		}
 	st_case_24:
-//line msg_parse.go:2125
+//line msg_parse.go:2140
 		if data[p] == 32 {
 			goto st25
 		}
@@ -2233,7 +2248,7 @@ tr45:
 			goto _test_eof26
 		}
 	st_case_26:
-//line msg_parse.go:2228
+//line msg_parse.go:2243
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2307,7 +2322,7 @@ tr29:
 			goto _test_eof27
 		}
 	st_case_27:
-//line msg_parse.go:2302
+//line msg_parse.go:2317
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2332,7 +2347,7 @@ tr44:
 			goto _test_eof28
 		}
 	st_case_28:
-//line msg_parse.go:2327
+//line msg_parse.go:2342
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2369,7 +2384,7 @@ tr38:
 			goto _test_eof29
 		}
 	st_case_29:
-//line msg_parse.go:2364
+//line msg_parse.go:2379
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr36
 		}
@@ -2397,7 +2412,7 @@ tr39:
 			goto _test_eof30
 		}
 	st_case_30:
-//line msg_parse.go:2392
+//line msg_parse.go:2407
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr38
 		}
@@ -2425,7 +2440,7 @@ tr40:
 			goto _test_eof31
 		}
 	st_case_31:
-//line msg_parse.go:2420
+//line msg_parse.go:2435
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr39
 		}
@@ -2453,7 +2468,7 @@ tr41:
 			goto _test_eof32
 		}
 	st_case_32:
-//line msg_parse.go:2448
+//line msg_parse.go:2463
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr40
 		}
@@ -2481,7 +2496,7 @@ tr42:
 			goto _test_eof33
 		}
 	st_case_33:
-//line msg_parse.go:2476
+//line msg_parse.go:2491
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr41
 		}
@@ -2535,7 +2550,7 @@ tr46:
 			goto _test_eof35
 		}
 	st_case_35:
-//line msg_parse.go:2530
+//line msg_parse.go:2545
 		switch data[p] {
 		case 33:
 			goto st35
@@ -2670,7 +2685,7 @@ tr50:
 			goto _test_eof38
 		}
 	st_case_38:
-//line msg_parse.go:2665
+//line msg_parse.go:2680
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2700,7 +2715,7 @@ tr51:
 			goto _test_eof39
 		}
 	st_case_39:
-//line msg_parse.go:2695
+//line msg_parse.go:2710
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2942,7 +2957,7 @@ tr52:
 			goto _test_eof44
 		}
 	st_case_44:
-//line msg_parse.go:2937
+//line msg_parse.go:2952
 		if data[p] == 10 {
 			goto tr66
 		}
@@ -2956,7 +2971,7 @@ tr66:
 			goto _test_eof749
 		}
 	st_case_749:
-//line msg_parse.go:2951
+//line msg_parse.go:2966
 		goto st0
 tr53:
 //line sip.rl:240
@@ -2969,7 +2984,7 @@ tr53:
 			goto _test_eof45
 		}
 	st_case_45:
-//line msg_parse.go:2964
+//line msg_parse.go:2979
 		if data[p] == 10 {
 			goto st46
 		}
@@ -3072,7 +3087,7 @@ tr78:
 			goto _test_eof49
 		}
 	st_case_49:
-//line msg_parse.go:3067
+//line msg_parse.go:3082
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3128,7 +3143,7 @@ tr70:
 			goto _test_eof50
 		}
 	st_case_50:
-//line msg_parse.go:3123
+//line msg_parse.go:3138
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3160,7 +3175,7 @@ tr71:
 			goto _test_eof51
 		}
 	st_case_51:
-//line msg_parse.go:3155
+//line msg_parse.go:3170
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -3197,7 +3212,7 @@ tr81:
 			goto _test_eof52
 		}
 	st_case_52:
-//line msg_parse.go:3192
+//line msg_parse.go:3207
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr78
 		}
@@ -3225,7 +3240,7 @@ tr82:
 			goto _test_eof53
 		}
 	st_case_53:
-//line msg_parse.go:3220
+//line msg_parse.go:3235
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr81
 		}
@@ -3253,7 +3268,7 @@ tr83:
 			goto _test_eof54
 		}
 	st_case_54:
-//line msg_parse.go:3248
+//line msg_parse.go:3263
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr82
 		}
@@ -3281,7 +3296,7 @@ tr84:
 			goto _test_eof55
 		}
 	st_case_55:
-//line msg_parse.go:3276
+//line msg_parse.go:3291
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr83
 		}
@@ -3309,7 +3324,7 @@ tr85:
 			goto _test_eof56
 		}
 	st_case_56:
-//line msg_parse.go:3304
+//line msg_parse.go:3319
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr84
 		}
@@ -3337,7 +3352,7 @@ tr86:
 			goto _test_eof57
 		}
 	st_case_57:
-//line msg_parse.go:3332
+//line msg_parse.go:3347
 		if data[p] == 10 {
 			goto tr87
 		}
@@ -3354,7 +3369,7 @@ tr87:
 			goto _test_eof58
 		}
 	st_case_58:
-//line msg_parse.go:3349
+//line msg_parse.go:3364
 		switch data[p] {
 		case 9:
 			goto tr78
@@ -3578,7 +3593,7 @@ tr94:
 			goto _test_eof69
 		}
 	st_case_69:
-//line msg_parse.go:3573
+//line msg_parse.go:3588
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3639,7 +3654,7 @@ tr95:
 			goto _test_eof70
 		}
 	st_case_70:
-//line msg_parse.go:3634
+//line msg_parse.go:3649
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3673,7 +3688,7 @@ tr97:
 			goto _test_eof71
 		}
 	st_case_71:
-//line msg_parse.go:3668
+//line msg_parse.go:3683
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3759,7 +3774,7 @@ tr123:
 			goto _test_eof750
 		}
 	st_case_750:
-//line msg_parse.go:3754
+//line msg_parse.go:3769
 		goto st0
 	st72:
 		if p++; p == pe {
@@ -3805,7 +3820,7 @@ tr98:
 			goto _test_eof75
 		}
 	st_case_75:
-//line msg_parse.go:3800
+//line msg_parse.go:3815
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3876,7 +3891,7 @@ tr99:
 			goto _test_eof79
 		}
 	st_case_79:
-//line msg_parse.go:3871
+//line msg_parse.go:3886
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3939,7 +3954,7 @@ tr115:
 			goto _test_eof80
 		}
 	st_case_80:
-//line msg_parse.go:3934
+//line msg_parse.go:3949
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4062,7 +4077,7 @@ tr100:
 			goto _test_eof85
 		}
 	st_case_85:
-//line msg_parse.go:4057
+//line msg_parse.go:4072
 		if data[p] == 10 {
 			goto tr123
 		}
@@ -4139,7 +4154,7 @@ tr133:
 			goto _test_eof87
 		}
 	st_case_87:
-//line msg_parse.go:4134
+//line msg_parse.go:4149
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4195,7 +4210,7 @@ tr125:
 			goto _test_eof88
 		}
 	st_case_88:
-//line msg_parse.go:4190
+//line msg_parse.go:4205
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4229,7 +4244,7 @@ tr126:
 			goto _test_eof89
 		}
 	st_case_89:
-//line msg_parse.go:4224
+//line msg_parse.go:4239
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -4266,7 +4281,7 @@ tr136:
 			goto _test_eof90
 		}
 	st_case_90:
-//line msg_parse.go:4261
+//line msg_parse.go:4276
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr133
 		}
@@ -4294,7 +4309,7 @@ tr137:
 			goto _test_eof91
 		}
 	st_case_91:
-//line msg_parse.go:4289
+//line msg_parse.go:4304
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr136
 		}
@@ -4322,7 +4337,7 @@ tr138:
 			goto _test_eof92
 		}
 	st_case_92:
-//line msg_parse.go:4317
+//line msg_parse.go:4332
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr137
 		}
@@ -4350,7 +4365,7 @@ tr139:
 			goto _test_eof93
 		}
 	st_case_93:
-//line msg_parse.go:4345
+//line msg_parse.go:4360
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr138
 		}
@@ -4378,7 +4393,7 @@ tr140:
 			goto _test_eof94
 		}
 	st_case_94:
-//line msg_parse.go:4373
+//line msg_parse.go:4388
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr139
 		}
@@ -4406,7 +4421,7 @@ tr141:
 			goto _test_eof95
 		}
 	st_case_95:
-//line msg_parse.go:4401
+//line msg_parse.go:4416
 		if data[p] == 10 {
 			goto tr142
 		}
@@ -4423,7 +4438,7 @@ tr142:
 			goto _test_eof96
 		}
 	st_case_96:
-//line msg_parse.go:4418
+//line msg_parse.go:4433
 		switch data[p] {
 		case 9:
 			goto tr133
@@ -4509,7 +4524,7 @@ tr101:
 			goto _test_eof100
 		}
 	st_case_100:
-//line msg_parse.go:4504
+//line msg_parse.go:4519
 		if data[p] == 10 {
 			goto st101
 		}
@@ -4593,7 +4608,7 @@ tr147:
 			goto _test_eof104
 		}
 	st_case_104:
-//line msg_parse.go:4588
+//line msg_parse.go:4603
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4648,7 +4663,7 @@ tr148:
 			goto _test_eof105
 		}
 	st_case_105:
-//line msg_parse.go:4643
+//line msg_parse.go:4658
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4678,7 +4693,7 @@ tr150:
 			goto _test_eof106
 		}
 	st_case_106:
-//line msg_parse.go:4673
+//line msg_parse.go:4688
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4736,7 +4751,7 @@ tr155:
 			goto _test_eof107
 		}
 	st_case_107:
-//line msg_parse.go:4731
+//line msg_parse.go:4746
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4791,7 +4806,7 @@ tr157:
 			goto _test_eof108
 		}
 	st_case_108:
-//line msg_parse.go:4786
+//line msg_parse.go:4801
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4821,7 +4836,7 @@ tr159:
 			goto _test_eof109
 		}
 	st_case_109:
-//line msg_parse.go:4816
+//line msg_parse.go:4831
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4879,7 +4894,7 @@ tr164:
 			goto _test_eof110
 		}
 	st_case_110:
-//line msg_parse.go:4874
+//line msg_parse.go:4889
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4937,7 +4952,7 @@ tr166:
 			goto _test_eof111
 		}
 	st_case_111:
-//line msg_parse.go:4932
+//line msg_parse.go:4947
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4984,7 +4999,7 @@ tr170:
 			goto _test_eof112
 		}
 	st_case_112:
-//line msg_parse.go:4979
+//line msg_parse.go:4994
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5037,7 +5052,7 @@ tr173:
 			goto _test_eof113
 		}
 	st_case_113:
-//line msg_parse.go:5032
+//line msg_parse.go:5047
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5071,7 +5086,7 @@ tr174:
 			goto _test_eof114
 		}
 	st_case_114:
-//line msg_parse.go:5066
+//line msg_parse.go:5081
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5145,7 +5160,7 @@ tr200:
 			goto _test_eof751
 		}
 	st_case_751:
-//line msg_parse.go:5140
+//line msg_parse.go:5155
 		goto st0
 	st115:
 		if p++; p == pe {
@@ -5191,7 +5206,7 @@ tr176:
 			goto _test_eof118
 		}
 	st_case_118:
-//line msg_parse.go:5186
+//line msg_parse.go:5201
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5225,7 +5240,7 @@ tr189:
 			goto _test_eof119
 		}
 	st_case_119:
-//line msg_parse.go:5220
+//line msg_parse.go:5235
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5287,7 +5302,7 @@ tr177:
 			goto _test_eof121
 		}
 	st_case_121:
-//line msg_parse.go:5282
+//line msg_parse.go:5297
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5395,7 +5410,7 @@ tr178:
 			goto _test_eof128
 		}
 	st_case_128:
-//line msg_parse.go:5390
+//line msg_parse.go:5405
 		if data[p] == 10 {
 			goto tr200
 		}
@@ -5447,7 +5462,7 @@ tr179:
 			goto _test_eof132
 		}
 	st_case_132:
-//line msg_parse.go:5442
+//line msg_parse.go:5457
 		if data[p] == 10 {
 			goto st133
 		}
@@ -5514,7 +5529,7 @@ tr205:
 			goto _test_eof136
 		}
 	st_case_136:
-//line msg_parse.go:5509
+//line msg_parse.go:5524
 		switch data[p] {
 		case 46:
 			goto st136
@@ -5545,7 +5560,7 @@ tr207:
 			goto _test_eof137
 		}
 	st_case_137:
-//line msg_parse.go:5540
+//line msg_parse.go:5555
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5581,7 +5596,7 @@ tr168:
 			goto _test_eof138
 		}
 	st_case_138:
-//line msg_parse.go:5576
+//line msg_parse.go:5591
 		if data[p] == 10 {
 			goto st139
 		}
@@ -5703,7 +5718,7 @@ tr160:
 			goto _test_eof144
 		}
 	st_case_144:
-//line msg_parse.go:5698
+//line msg_parse.go:5713
 		if data[p] == 10 {
 			goto st145
 		}
@@ -5808,7 +5823,7 @@ tr151:
 			goto _test_eof150
 		}
 	st_case_150:
-//line msg_parse.go:5803
+//line msg_parse.go:5818
 		if data[p] == 10 {
 			goto st151
 		}
@@ -5892,7 +5907,7 @@ tr218:
 			goto _test_eof154
 		}
 	st_case_154:
-//line msg_parse.go:5887
+//line msg_parse.go:5902
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5953,7 +5968,7 @@ tr219:
 			goto _test_eof155
 		}
 	st_case_155:
-//line msg_parse.go:5948
+//line msg_parse.go:5963
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5987,7 +6002,7 @@ tr221:
 			goto _test_eof156
 		}
 	st_case_156:
-//line msg_parse.go:5982
+//line msg_parse.go:5997
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6065,7 +6080,7 @@ tr247:
 			goto _test_eof752
 		}
 	st_case_752:
-//line msg_parse.go:6060
+//line msg_parse.go:6075
 		goto st0
 	st157:
 		if p++; p == pe {
@@ -6111,7 +6126,7 @@ tr222:
 			goto _test_eof160
 		}
 	st_case_160:
-//line msg_parse.go:6106
+//line msg_parse.go:6121
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6182,7 +6197,7 @@ tr223:
 			goto _test_eof164
 		}
 	st_case_164:
-//line msg_parse.go:6177
+//line msg_parse.go:6192
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6245,7 +6260,7 @@ tr239:
 			goto _test_eof165
 		}
 	st_case_165:
-//line msg_parse.go:6240
+//line msg_parse.go:6255
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6368,7 +6383,7 @@ tr224:
 			goto _test_eof170
 		}
 	st_case_170:
-//line msg_parse.go:6363
+//line msg_parse.go:6378
 		if data[p] == 10 {
 			goto tr247
 		}
@@ -6445,7 +6460,7 @@ tr257:
 			goto _test_eof172
 		}
 	st_case_172:
-//line msg_parse.go:6440
+//line msg_parse.go:6455
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6501,7 +6516,7 @@ tr249:
 			goto _test_eof173
 		}
 	st_case_173:
-//line msg_parse.go:6496
+//line msg_parse.go:6511
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6535,7 +6550,7 @@ tr250:
 			goto _test_eof174
 		}
 	st_case_174:
-//line msg_parse.go:6530
+//line msg_parse.go:6545
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -6572,7 +6587,7 @@ tr260:
 			goto _test_eof175
 		}
 	st_case_175:
-//line msg_parse.go:6567
+//line msg_parse.go:6582
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr257
 		}
@@ -6600,7 +6615,7 @@ tr261:
 			goto _test_eof176
 		}
 	st_case_176:
-//line msg_parse.go:6595
+//line msg_parse.go:6610
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr260
 		}
@@ -6628,7 +6643,7 @@ tr262:
 			goto _test_eof177
 		}
 	st_case_177:
-//line msg_parse.go:6623
+//line msg_parse.go:6638
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr261
 		}
@@ -6656,7 +6671,7 @@ tr263:
 			goto _test_eof178
 		}
 	st_case_178:
-//line msg_parse.go:6651
+//line msg_parse.go:6666
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr262
 		}
@@ -6684,7 +6699,7 @@ tr264:
 			goto _test_eof179
 		}
 	st_case_179:
-//line msg_parse.go:6679
+//line msg_parse.go:6694
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr263
 		}
@@ -6712,7 +6727,7 @@ tr265:
 			goto _test_eof180
 		}
 	st_case_180:
-//line msg_parse.go:6707
+//line msg_parse.go:6722
 		if data[p] == 10 {
 			goto tr266
 		}
@@ -6729,7 +6744,7 @@ tr266:
 			goto _test_eof181
 		}
 	st_case_181:
-//line msg_parse.go:6724
+//line msg_parse.go:6739
 		switch data[p] {
 		case 9:
 			goto tr257
@@ -6815,7 +6830,7 @@ tr225:
 			goto _test_eof185
 		}
 	st_case_185:
-//line msg_parse.go:6810
+//line msg_parse.go:6825
 		if data[p] == 10 {
 			goto st186
 		}
@@ -6916,7 +6931,7 @@ tr330:
 			goto _test_eof189
 		}
 	st_case_189:
-//line msg_parse.go:6911
+//line msg_parse.go:6926
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6956,7 +6971,7 @@ tr331:
 			goto _test_eof190
 		}
 	st_case_190:
-//line msg_parse.go:6951
+//line msg_parse.go:6966
 		switch {
 		case data[p] > 90:
 			if 97 <= data[p] && data[p] <= 122 {
@@ -6977,7 +6992,7 @@ tr276:
 			goto _test_eof191
 		}
 	st_case_191:
-//line msg_parse.go:6972
+//line msg_parse.go:6987
 		switch data[p] {
 		case 43:
 			goto st191
@@ -7074,7 +7089,7 @@ tr280:
 			goto _test_eof194
 		}
 	st_case_194:
-//line msg_parse.go:7069
+//line msg_parse.go:7084
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7167,7 +7182,7 @@ tr294:
 			goto _test_eof753
 		}
 	st_case_753:
-//line msg_parse.go:7162
+//line msg_parse.go:7177
 		goto st0
 	st196:
 		if p++; p == pe {
@@ -7381,7 +7396,7 @@ tr332:
 			goto _test_eof210
 		}
 	st_case_210:
-//line msg_parse.go:7376
+//line msg_parse.go:7391
 		if data[p] == 10 {
 			goto st211
 		}
@@ -7423,7 +7438,7 @@ tr272:
 			goto _test_eof213
 		}
 	st_case_213:
-//line msg_parse.go:7418
+//line msg_parse.go:7433
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7485,7 +7500,7 @@ tr305:
 			goto _test_eof214
 		}
 	st_case_214:
-//line msg_parse.go:7480
+//line msg_parse.go:7495
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7549,7 +7564,7 @@ tr307:
 			goto _test_eof215
 		}
 	st_case_215:
-//line msg_parse.go:7544
+//line msg_parse.go:7559
 		if data[p] == 10 {
 			goto st216
 		}
@@ -7581,7 +7596,7 @@ tr310:
 			goto _test_eof217
 		}
 	st_case_217:
-//line msg_parse.go:7576
+//line msg_parse.go:7591
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7641,7 +7656,7 @@ tr273:
 			goto _test_eof218
 		}
 	st_case_218:
-//line msg_parse.go:7636
+//line msg_parse.go:7651
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7709,7 +7724,7 @@ tr321:
 			goto _test_eof219
 		}
 	st_case_219:
-//line msg_parse.go:7704
+//line msg_parse.go:7719
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7765,7 +7780,7 @@ tr313:
 			goto _test_eof220
 		}
 	st_case_220:
-//line msg_parse.go:7760
+//line msg_parse.go:7775
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7795,7 +7810,7 @@ tr314:
 			goto _test_eof221
 		}
 	st_case_221:
-//line msg_parse.go:7790
+//line msg_parse.go:7805
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -7832,7 +7847,7 @@ tr324:
 			goto _test_eof222
 		}
 	st_case_222:
-//line msg_parse.go:7827
+//line msg_parse.go:7842
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr321
 		}
@@ -7860,7 +7875,7 @@ tr325:
 			goto _test_eof223
 		}
 	st_case_223:
-//line msg_parse.go:7855
+//line msg_parse.go:7870
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr324
 		}
@@ -7888,7 +7903,7 @@ tr326:
 			goto _test_eof224
 		}
 	st_case_224:
-//line msg_parse.go:7883
+//line msg_parse.go:7898
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr325
 		}
@@ -7916,7 +7931,7 @@ tr327:
 			goto _test_eof225
 		}
 	st_case_225:
-//line msg_parse.go:7911
+//line msg_parse.go:7926
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr326
 		}
@@ -7944,7 +7959,7 @@ tr328:
 			goto _test_eof226
 		}
 	st_case_226:
-//line msg_parse.go:7939
+//line msg_parse.go:7954
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr327
 		}
@@ -7972,7 +7987,7 @@ tr329:
 			goto _test_eof227
 		}
 	st_case_227:
-//line msg_parse.go:7967
+//line msg_parse.go:7982
 		if data[p] == 10 {
 			goto tr333
 		}
@@ -7989,7 +8004,7 @@ tr333:
 			goto _test_eof228
 		}
 	st_case_228:
-//line msg_parse.go:7984
+//line msg_parse.go:7999
 		switch data[p] {
 		case 9:
 			goto tr321
@@ -8136,7 +8151,7 @@ tr337:
 			goto _test_eof233
 		}
 	st_case_233:
-//line msg_parse.go:8131
+//line msg_parse.go:8146
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8169,7 +8184,7 @@ tr338:
 			goto _test_eof234
 		}
 	st_case_234:
-//line msg_parse.go:8164
+//line msg_parse.go:8179
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8235,7 +8250,7 @@ tr356:
 			goto _test_eof754
 		}
 	st_case_754:
-//line msg_parse.go:8230
+//line msg_parse.go:8245
 		goto st0
 	st235:
 		if p++; p == pe {
@@ -8282,7 +8297,7 @@ tr339:
 			goto _test_eof238
 		}
 	st_case_238:
-//line msg_parse.go:8277
+//line msg_parse.go:8292
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8354,7 +8369,7 @@ tr341:
 			goto _test_eof242
 		}
 	st_case_242:
-//line msg_parse.go:8349
+//line msg_parse.go:8364
 		if data[p] == 10 {
 			goto st243
 		}
@@ -8399,7 +8414,7 @@ tr340:
 			goto _test_eof245
 		}
 	st_case_245:
-//line msg_parse.go:8394
+//line msg_parse.go:8409
 		if data[p] == 10 {
 			goto tr356
 		}
@@ -8461,7 +8476,7 @@ tr357:
 			goto _test_eof247
 		}
 	st_case_247:
-//line msg_parse.go:8456
+//line msg_parse.go:8471
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8605,7 +8620,7 @@ tr367:
 			goto _test_eof755
 		}
 	st_case_755:
-//line msg_parse.go:8600
+//line msg_parse.go:8615
 		goto st0
 	st249:
 		if p++; p == pe {
@@ -8683,7 +8698,7 @@ tr359:
 			goto _test_eof252
 		}
 	st_case_252:
-//line msg_parse.go:8678
+//line msg_parse.go:8693
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8794,7 +8809,7 @@ tr368:
 			goto _test_eof254
 		}
 	st_case_254:
-//line msg_parse.go:8789
+//line msg_parse.go:8804
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8848,7 +8863,7 @@ tr369:
 			goto _test_eof255
 		}
 	st_case_255:
-//line msg_parse.go:8843
+//line msg_parse.go:8858
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st254
 		}
@@ -8864,7 +8879,7 @@ tr370:
 			goto _test_eof256
 		}
 	st_case_256:
-//line msg_parse.go:8859
+//line msg_parse.go:8874
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st255
 		}
@@ -8880,7 +8895,7 @@ tr371:
 			goto _test_eof257
 		}
 	st_case_257:
-//line msg_parse.go:8875
+//line msg_parse.go:8890
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st256
 		}
@@ -8896,7 +8911,7 @@ tr372:
 			goto _test_eof258
 		}
 	st_case_258:
-//line msg_parse.go:8891
+//line msg_parse.go:8906
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st257
 		}
@@ -8912,7 +8927,7 @@ tr373:
 			goto _test_eof259
 		}
 	st_case_259:
-//line msg_parse.go:8907
+//line msg_parse.go:8922
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st258
 		}
@@ -8928,7 +8943,7 @@ tr374:
 			goto _test_eof260
 		}
 	st_case_260:
-//line msg_parse.go:8923
+//line msg_parse.go:8938
 		if data[p] == 10 {
 			goto tr384
 		}
@@ -8951,7 +8966,7 @@ tr384:
 			goto _test_eof756
 		}
 	st_case_756:
-//line msg_parse.go:8946
+//line msg_parse.go:8961
 		goto st0
 tr375:
 //line sip.rl:80
@@ -8964,7 +8979,7 @@ tr375:
 			goto _test_eof261
 		}
 	st_case_261:
-//line msg_parse.go:8959
+//line msg_parse.go:8974
 		if data[p] == 10 {
 			goto st262
 		}
@@ -9074,7 +9089,7 @@ tr387:
 			goto _test_eof265
 		}
 	st_case_265:
-//line msg_parse.go:9069
+//line msg_parse.go:9084
 		switch data[p] {
 		case 9:
 			goto st265
@@ -9095,7 +9110,7 @@ tr388:
 			goto _test_eof266
 		}
 	st_case_266:
-//line msg_parse.go:9090
+//line msg_parse.go:9105
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9138,7 +9153,7 @@ value=nil
 			goto _test_eof757
 		}
 	st_case_757:
-//line msg_parse.go:9133
+//line msg_parse.go:9148
 		goto st0
 	st267:
 		if p++; p == pe {
@@ -9279,7 +9294,7 @@ tr945:
 			goto _test_eof758
 		}
 	st_case_758:
-//line msg_parse.go:9274
+//line msg_parse.go:9289
 		goto st0
 tr396:
 //line sip.rl:80
@@ -9297,7 +9312,7 @@ tr396:
 			goto _test_eof272
 		}
 	st_case_272:
-//line msg_parse.go:9292
+//line msg_parse.go:9307
 		switch data[p] {
 		case 65:
 			goto st273
@@ -9554,7 +9569,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof274
 		}
 	st_case_274:
-//line msg_parse.go:9549
+//line msg_parse.go:9564
 		switch data[p] {
 		case 9:
 			goto st274
@@ -9719,7 +9734,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof275
 		}
 	st_case_275:
-//line msg_parse.go:9714
+//line msg_parse.go:9729
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -10984,7 +10999,7 @@ tr535:
 			goto _test_eof369
 		}
 	st_case_369:
-//line msg_parse.go:10979
+//line msg_parse.go:10994
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11139,7 +11154,7 @@ tr624:
 			goto _test_eof372
 		}
 	st_case_372:
-//line msg_parse.go:11134
+//line msg_parse.go:11149
 		if data[p] == 10 {
 			goto tr541
 		}
@@ -11360,7 +11375,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof385
 		}
 	st_case_385:
-//line msg_parse.go:11355
+//line msg_parse.go:11370
 		switch data[p] {
 		case 9:
 			goto st385
@@ -11403,7 +11418,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof386
 		}
 	st_case_386:
-//line msg_parse.go:11398
+//line msg_parse.go:11413
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11979,7 +11994,7 @@ tr607:
 			goto _test_eof428
 		}
 	st_case_428:
-//line msg_parse.go:11974
+//line msg_parse.go:11989
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12170,7 +12185,7 @@ tr618:
 			goto _test_eof441
 		}
 	st_case_441:
-//line msg_parse.go:12165
+//line msg_parse.go:12180
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12252,7 +12267,7 @@ tr622:
 			goto _test_eof443
 		}
 	st_case_443:
-//line msg_parse.go:12247
+//line msg_parse.go:12262
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12764,7 +12779,7 @@ tr661:
 			goto _test_eof476
 		}
 	st_case_476:
-//line msg_parse.go:12759
+//line msg_parse.go:12774
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13235,7 +13250,7 @@ tr699:
 			goto _test_eof510
 		}
 	st_case_510:
-//line msg_parse.go:13230
+//line msg_parse.go:13245
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13591,7 +13606,7 @@ tr727:
 			goto _test_eof536
 		}
 	st_case_536:
-//line msg_parse.go:13586
+//line msg_parse.go:13601
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -17035,7 +17050,7 @@ tr727:
 
 	{goto st263 }
 
-//line msg_parse.go:17030
+//line msg_parse.go:17045
 		}
 	}
 
diff --git a/sip/sip.rl b/sip/sip.rl
index e44ddf3..0ba25b8 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -573,7 +573,7 @@ SIPVersionNo    = digit+ @VersionMajor "." digit+ @VersionMinor;
 RequestURI      = ^SP+ >mark %RequestURI;
 StatusCode      = ( digit @StatusCode ) {3};
 ReasonPhrase    = reasonmc* >start %ReasonPhrase;
-SIPVersion      = "SIP/" SIPVersionNo;
+SIPVersion      = "SIP/"i SIPVersionNo;
 Request         = Method SP RequestURI SP SIPVersion CRLF @goto_header;
 Response        = SIPVersion SP StatusCode SP ReasonPhrase CRLF @goto_header;
 Message         = Request | Response;
-- 
2.43.0


From 9e7493aef5018c4c460244044f8f36ac621d8818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:53 +0000
Subject: [PATCH 51/58] fix: URIs with an empty password were rejected

---
 sip/uri_parse.go | 832 ++++++++++++++++++++++++-----------------------
 sip/uri_parse.rl |   2 +-
 2 files changed, 418 insertions(+), 416 deletions(-)

diff --git a/sip/uri_parse.go b/sip/uri_parse.go
index a4bf0be..ea96cc5 100644
--- a/sip/uri_parse.go
+++ b/sip/uri_parse.go
@@ -436,6 +436,8 @@ tr8:
 			goto tr13
 		case 61:
 			goto tr12
+		case 64:
+			goto st11
 		case 95:
 			goto tr12
 		case 126:
@@ -470,14 +472,14 @@ tr12:
 			amt++
 		
 	goto st8
-tr14:
+tr15:
 //line uri_parse.rl:47
 
 			buf[amt] = data[p]
 			amt++
 		
 	goto st8
-tr18:
+tr19:
 //line uri_parse.rl:56
 
 			hex += unhex(data[p])
@@ -490,37 +492,37 @@ tr18:
 			goto _test_eof8
 		}
 	st_case_8:
-//line uri_parse.go:486
+//line uri_parse.go:488
 		switch data[p] {
 		case 33:
-			goto tr14
+			goto tr15
 		case 37:
 			goto st9
 		case 61:
-			goto tr14
+			goto tr15
 		case 64:
-			goto tr16
+			goto tr17
 		case 95:
-			goto tr14
+			goto tr15
 		case 126:
-			goto tr14
+			goto tr15
 		}
 		switch {
 		case data[p] < 48:
 			if 36 <= data[p] && data[p] <= 46 {
-				goto tr14
+				goto tr15
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr14
+					goto tr15
 				}
 			case data[p] >= 65:
-				goto tr14
+				goto tr15
 			}
 		default:
-			goto tr14
+			goto tr15
 		}
 		goto st0
 tr13:
@@ -534,21 +536,21 @@ tr13:
 			goto _test_eof9
 		}
 	st_case_9:
-//line uri_parse.go:530
+//line uri_parse.go:532
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
-				goto tr17
+				goto tr18
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr17
+				goto tr18
 			}
 		default:
-			goto tr17
+			goto tr18
 		}
 		goto st0
-tr17:
+tr18:
 //line uri_parse.rl:52
 
 			hex = unhex(data[p]) * 16
@@ -559,18 +561,18 @@ tr17:
 			goto _test_eof10
 		}
 	st_case_10:
-//line uri_parse.go:555
+//line uri_parse.go:557
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
-				goto tr18
+				goto tr19
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr18
+				goto tr19
 			}
 		default:
-			goto tr18
+			goto tr19
 		}
 		goto st0
 tr9:
@@ -579,7 +581,7 @@ tr9:
 			uri.User = string(buf[0:amt])
 		
 	goto st11
-tr16:
+tr17:
 //line uri_parse.rl:78
 
 			uri.Pass = string(buf[0:amt])
@@ -590,32 +592,32 @@ tr16:
 			goto _test_eof11
 		}
 	st_case_11:
-//line uri_parse.go:586
+//line uri_parse.go:588
 		switch data[p] {
 		case 43:
-			goto tr19
+			goto tr20
 		case 91:
 			goto st24
 		}
 		switch {
 		case data[p] < 48:
 			if 45 <= data[p] && data[p] <= 46 {
-				goto tr19
+				goto tr20
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr19
+					goto tr20
 				}
 			case data[p] >= 65:
-				goto tr19
+				goto tr20
 			}
 		default:
-			goto tr19
+			goto tr20
 		}
 		goto st0
-tr19:
+tr20:
 //line uri_parse.rl:43
 
 			amt = 0
@@ -630,7 +632,7 @@ tr19:
 			amt++
 		
 	goto st43
-tr62:
+tr63:
 //line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
@@ -646,36 +648,36 @@ tr62:
 			goto _test_eof43
 		}
 	st_case_43:
-//line uri_parse.go:642
+//line uri_parse.go:644
 		switch data[p] {
 		case 43:
-			goto tr62
-		case 58:
 			goto tr63
-		case 59:
+		case 58:
 			goto tr64
-		case 63:
+		case 59:
 			goto tr65
+		case 63:
+			goto tr66
 		}
 		switch {
 		case data[p] < 48:
 			if 45 <= data[p] && data[p] <= 46 {
-				goto tr62
+				goto tr63
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr62
+					goto tr63
 				}
 			case data[p] >= 65:
-				goto tr62
+				goto tr63
 			}
 		default:
-			goto tr62
+			goto tr63
 		}
 		goto st0
-tr63:
+tr64:
 //line uri_parse.rl:82
 
 			uri.Host = string(buf[0:amt])
@@ -686,12 +688,12 @@ tr63:
 			goto _test_eof12
 		}
 	st_case_12:
-//line uri_parse.go:682
+//line uri_parse.go:684
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr21
+			goto tr22
 		}
 		goto st0
-tr21:
+tr22:
 //line uri_parse.rl:86
 
 			if int(uri.Port) * 10 + int(data[p] - 0x30) > 65535 {
@@ -705,7 +707,7 @@ tr21:
 			goto _test_eof44
 		}
 	st_case_44:
-//line uri_parse.go:701
+//line uri_parse.go:703
 		switch data[p] {
 		case 59:
 			goto st13
@@ -713,16 +715,16 @@ tr21:
 			goto st19
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr21
+			goto tr22
 		}
 		goto st0
-tr64:
+tr65:
 //line uri_parse.rl:82
 
 			uri.Host = string(buf[0:amt])
 		
 	goto st13
-tr70:
+tr71:
 //line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
@@ -733,7 +735,7 @@ tr70:
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st13
-tr75:
+tr76:
 //line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
@@ -749,45 +751,45 @@ tr75:
 			goto _test_eof13
 		}
 	st_case_13:
-//line uri_parse.go:745
+//line uri_parse.go:747
 		switch data[p] {
 		case 33:
-			goto tr22
-		case 37:
 			goto tr23
+		case 37:
+			goto tr24
 		case 93:
-			goto tr22
+			goto tr23
 		case 95:
-			goto tr22
+			goto tr23
 		case 126:
-			goto tr22
+			goto tr23
 		}
 		switch {
 		case data[p] < 45:
 			if 36 <= data[p] && data[p] <= 43 {
-				goto tr22
+				goto tr23
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr22
+					goto tr23
 				}
 			case data[p] >= 65:
-				goto tr22
+				goto tr23
 			}
 		default:
-			goto tr22
+			goto tr23
 		}
 		goto st0
-tr68:
+tr69:
 //line uri_parse.rl:47
 
 			buf[amt] = data[p]
 			amt++
 		
 	goto st45
-tr25:
+tr26:
 //line uri_parse.rl:56
 
 			hex += unhex(data[p])
@@ -795,7 +797,7 @@ tr25:
 			amt++
 		
 	goto st45
-tr22:
+tr23:
 //line uri_parse.rl:43
 
 			amt = 0
@@ -816,44 +818,44 @@ tr22:
 			goto _test_eof45
 		}
 	st_case_45:
-//line uri_parse.go:812
+//line uri_parse.go:814
 		switch data[p] {
 		case 33:
-			goto tr68
+			goto tr69
 		case 37:
 			goto st14
 		case 59:
-			goto tr70
-		case 61:
 			goto tr71
-		case 63:
+		case 61:
 			goto tr72
+		case 63:
+			goto tr73
 		case 93:
-			goto tr68
+			goto tr69
 		case 95:
-			goto tr68
+			goto tr69
 		case 126:
-			goto tr68
+			goto tr69
 		}
 		switch {
 		case data[p] < 45:
 			if 36 <= data[p] && data[p] <= 43 {
-				goto tr68
+				goto tr69
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr68
+					goto tr69
 				}
 			case data[p] >= 65:
-				goto tr68
+				goto tr69
 			}
 		default:
-			goto tr68
+			goto tr69
 		}
 		goto st0
-tr23:
+tr24:
 //line uri_parse.rl:43
 
 			amt = 0
@@ -869,21 +871,21 @@ tr23:
 			goto _test_eof14
 		}
 	st_case_14:
-//line uri_parse.go:865
+//line uri_parse.go:867
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
-				goto tr24
+				goto tr25
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr24
+				goto tr25
 			}
 		default:
-			goto tr24
+			goto tr25
 		}
 		goto st0
-tr24:
+tr25:
 //line uri_parse.rl:52
 
 			hex = unhex(data[p]) * 16
@@ -894,21 +896,21 @@ tr24:
 			goto _test_eof15
 		}
 	st_case_15:
-//line uri_parse.go:890
+//line uri_parse.go:892
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
-				goto tr25
+				goto tr26
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr25
+				goto tr26
 			}
 		default:
-			goto tr25
+			goto tr26
 		}
 		goto st0
-tr71:
+tr72:
 //line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
@@ -920,38 +922,38 @@ tr71:
 			goto _test_eof16
 		}
 	st_case_16:
-//line uri_parse.go:916
+//line uri_parse.go:918
 		switch data[p] {
 		case 33:
-			goto tr26
-		case 37:
 			goto tr27
+		case 37:
+			goto tr28
 		case 93:
-			goto tr26
+			goto tr27
 		case 95:
-			goto tr26
+			goto tr27
 		case 126:
-			goto tr26
+			goto tr27
 		}
 		switch {
 		case data[p] < 45:
 			if 36 <= data[p] && data[p] <= 43 {
-				goto tr26
+				goto tr27
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr26
+					goto tr27
 				}
 			case data[p] >= 65:
-				goto tr26
+				goto tr27
 			}
 		default:
-			goto tr26
+			goto tr27
 		}
 		goto st0
-tr26:
+tr27:
 //line uri_parse.rl:43
 
 			amt = 0
@@ -962,14 +964,14 @@ tr26:
 			amt++
 		
 	goto st46
-tr73:
+tr74:
 //line uri_parse.rl:47
 
 			buf[amt] = data[p]
 			amt++
 		
 	goto st46
-tr29:
+tr30:
 //line uri_parse.rl:56
 
 			hex += unhex(data[p])
@@ -982,42 +984,42 @@ tr29:
 			goto _test_eof46
 		}
 	st_case_46:
-//line uri_parse.go:978
+//line uri_parse.go:980
 		switch data[p] {
 		case 33:
-			goto tr73
+			goto tr74
 		case 37:
 			goto st17
 		case 59:
-			goto tr75
-		case 63:
 			goto tr76
+		case 63:
+			goto tr77
 		case 93:
-			goto tr73
+			goto tr74
 		case 95:
-			goto tr73
+			goto tr74
 		case 126:
-			goto tr73
+			goto tr74
 		}
 		switch {
 		case data[p] < 45:
 			if 36 <= data[p] && data[p] <= 43 {
-				goto tr73
+				goto tr74
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr73
+					goto tr74
 				}
 			case data[p] >= 65:
-				goto tr73
+				goto tr74
 			}
 		default:
-			goto tr73
+			goto tr74
 		}
 		goto st0
-tr27:
+tr28:
 //line uri_parse.rl:43
 
 			amt = 0
@@ -1028,21 +1030,21 @@ tr27:
 			goto _test_eof17
 		}
 	st_case_17:
-//line uri_parse.go:1024
+//line uri_parse.go:1026
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
-				goto tr28
+				goto tr29
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr28
+				goto tr29
 			}
 		default:
-			goto tr28
+			goto tr29
 		}
 		goto st0
-tr28:
+tr29:
 //line uri_parse.rl:52
 
 			hex = unhex(data[p]) * 16
@@ -1053,27 +1055,27 @@ tr28:
 			goto _test_eof18
 		}
 	st_case_18:
-//line uri_parse.go:1049
+//line uri_parse.go:1051
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
-				goto tr29
+				goto tr30
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr29
+				goto tr30
 			}
 		default:
-			goto tr29
+			goto tr30
 		}
 		goto st0
-tr65:
+tr66:
 //line uri_parse.rl:82
 
 			uri.Host = string(buf[0:amt])
 		
 	goto st19
-tr72:
+tr73:
 //line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
@@ -1084,7 +1086,7 @@ tr72:
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st19
-tr76:
+tr77:
 //line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
@@ -1095,7 +1097,7 @@ tr76:
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st19
-tr79:
+tr80:
 //line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
@@ -1106,13 +1108,13 @@ tr79:
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
 	goto st19
-tr83:
+tr84:
 //line uri_parse.rl:116
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
 	goto st19
-tr86:
+tr87:
 //line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
@@ -1128,49 +1130,49 @@ tr86:
 			goto _test_eof19
 		}
 	st_case_19:
-//line uri_parse.go:1124
+//line uri_parse.go:1126
 		switch data[p] {
 		case 33:
-			goto tr30
+			goto tr31
 		case 36:
-			goto tr30
-		case 37:
 			goto tr31
+		case 37:
+			goto tr32
 		case 63:
-			goto tr30
+			goto tr31
 		case 93:
-			goto tr30
+			goto tr31
 		case 95:
-			goto tr30
+			goto tr31
 		case 126:
-			goto tr30
+			goto tr31
 		}
 		switch {
 		case data[p] < 45:
 			if 39 <= data[p] && data[p] <= 43 {
-				goto tr30
+				goto tr31
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr30
+					goto tr31
 				}
 			case data[p] >= 65:
-				goto tr30
+				goto tr31
 			}
 		default:
-			goto tr30
+			goto tr31
 		}
 		goto st0
-tr77:
+tr78:
 //line uri_parse.rl:47
 
 			buf[amt] = data[p]
 			amt++
 		
 	goto st47
-tr33:
+tr34:
 //line uri_parse.rl:56
 
 			hex += unhex(data[p])
@@ -1178,7 +1180,7 @@ tr33:
 			amt++
 		
 	goto st47
-tr30:
+tr31:
 //line uri_parse.rl:43
 
 			amt = 0
@@ -1199,44 +1201,44 @@ tr30:
 			goto _test_eof47
 		}
 	st_case_47:
-//line uri_parse.go:1195
+//line uri_parse.go:1197
 		switch data[p] {
 		case 33:
-			goto tr77
+			goto tr78
 		case 37:
 			goto st20
 		case 38:
-			goto tr79
-		case 61:
 			goto tr80
+		case 61:
+			goto tr81
 		case 63:
-			goto tr77
+			goto tr78
 		case 93:
-			goto tr77
+			goto tr78
 		case 95:
-			goto tr77
+			goto tr78
 		case 126:
-			goto tr77
+			goto tr78
 		}
 		switch {
 		case data[p] < 45:
 			if 36 <= data[p] && data[p] <= 43 {
-				goto tr77
+				goto tr78
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr77
+					goto tr78
 				}
 			case data[p] >= 65:
-				goto tr77
+				goto tr78
 			}
 		default:
-			goto tr77
+			goto tr78
 		}
 		goto st0
-tr31:
+tr32:
 //line uri_parse.rl:43
 
 			amt = 0
@@ -1252,21 +1254,21 @@ tr31:
 			goto _test_eof20
 		}
 	st_case_20:
-//line uri_parse.go:1248
+//line uri_parse.go:1250
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
-				goto tr32
+				goto tr33
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr32
+				goto tr33
 			}
 		default:
-			goto tr32
+			goto tr33
 		}
 		goto st0
-tr32:
+tr33:
 //line uri_parse.rl:52
 
 			hex = unhex(data[p]) * 16
@@ -1277,21 +1279,21 @@ tr32:
 			goto _test_eof21
 		}
 	st_case_21:
-//line uri_parse.go:1273
+//line uri_parse.go:1275
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
-				goto tr33
+				goto tr34
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr33
+				goto tr34
 			}
 		default:
-			goto tr33
+			goto tr34
 		}
 		goto st0
-tr80:
+tr81:
 //line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
@@ -1303,42 +1305,42 @@ tr80:
 			goto _test_eof48
 		}
 	st_case_48:
-//line uri_parse.go:1299
+//line uri_parse.go:1301
 		switch data[p] {
 		case 33:
-			goto tr81
-		case 37:
 			goto tr82
-		case 38:
+		case 37:
 			goto tr83
+		case 38:
+			goto tr84
 		case 63:
-			goto tr81
+			goto tr82
 		case 93:
-			goto tr81
+			goto tr82
 		case 95:
-			goto tr81
+			goto tr82
 		case 126:
-			goto tr81
+			goto tr82
 		}
 		switch {
 		case data[p] < 45:
 			if 36 <= data[p] && data[p] <= 43 {
-				goto tr81
+				goto tr82
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr81
+					goto tr82
 				}
 			case data[p] >= 65:
-				goto tr81
+				goto tr82
 			}
 		default:
-			goto tr81
+			goto tr82
 		}
 		goto st0
-tr81:
+tr82:
 //line uri_parse.rl:43
 
 			amt = 0
@@ -1349,14 +1351,14 @@ tr81:
 			amt++
 		
 	goto st49
-tr84:
+tr85:
 //line uri_parse.rl:47
 
 			buf[amt] = data[p]
 			amt++
 		
 	goto st49
-tr35:
+tr36:
 //line uri_parse.rl:56
 
 			hex += unhex(data[p])
@@ -1369,42 +1371,42 @@ tr35:
 			goto _test_eof49
 		}
 	st_case_49:
-//line uri_parse.go:1365
+//line uri_parse.go:1367
 		switch data[p] {
 		case 33:
-			goto tr84
+			goto tr85
 		case 37:
 			goto st22
 		case 38:
-			goto tr86
+			goto tr87
 		case 63:
-			goto tr84
+			goto tr85
 		case 93:
-			goto tr84
+			goto tr85
 		case 95:
-			goto tr84
+			goto tr85
 		case 126:
-			goto tr84
+			goto tr85
 		}
 		switch {
 		case data[p] < 45:
 			if 36 <= data[p] && data[p] <= 43 {
-				goto tr84
+				goto tr85
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr84
+					goto tr85
 				}
 			case data[p] >= 65:
-				goto tr84
+				goto tr85
 			}
 		default:
-			goto tr84
+			goto tr85
 		}
 		goto st0
-tr82:
+tr83:
 //line uri_parse.rl:43
 
 			amt = 0
@@ -1415,21 +1417,21 @@ tr82:
 			goto _test_eof22
 		}
 	st_case_22:
-//line uri_parse.go:1411
+//line uri_parse.go:1413
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
-				goto tr34
+				goto tr35
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr34
+				goto tr35
 			}
 		default:
-			goto tr34
+			goto tr35
 		}
 		goto st0
-tr34:
+tr35:
 //line uri_parse.rl:52
 
 			hex = unhex(data[p]) * 16
@@ -1440,18 +1442,18 @@ tr34:
 			goto _test_eof23
 		}
 	st_case_23:
-//line uri_parse.go:1436
+//line uri_parse.go:1438
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
-				goto tr35
+				goto tr36
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr35
+				goto tr36
 			}
 		default:
-			goto tr35
+			goto tr36
 		}
 		goto st0
 	st24:
@@ -1460,22 +1462,22 @@ tr34:
 		}
 	st_case_24:
 		if data[p] == 46 {
-			goto tr36
+			goto tr37
 		}
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 58 {
-				goto tr36
+				goto tr37
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr36
+				goto tr37
 			}
 		default:
-			goto tr36
+			goto tr37
 		}
 		goto st0
-tr36:
+tr37:
 //line uri_parse.rl:43
 
 			amt = 0
@@ -1490,7 +1492,7 @@ tr36:
 			amt++
 		
 	goto st25
-tr37:
+tr38:
 //line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
@@ -1506,27 +1508,27 @@ tr37:
 			goto _test_eof25
 		}
 	st_case_25:
-//line uri_parse.go:1502
+//line uri_parse.go:1504
 		switch data[p] {
 		case 46:
-			goto tr37
-		case 93:
 			goto tr38
+		case 93:
+			goto tr39
 		}
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 58 {
-				goto tr37
+				goto tr38
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr37
+				goto tr38
 			}
 		default:
-			goto tr37
+			goto tr38
 		}
 		goto st0
-tr38:
+tr39:
 //line uri_parse.rl:82
 
 			uri.Host = string(buf[0:amt])
@@ -1537,7 +1539,7 @@ tr38:
 			goto _test_eof50
 		}
 	st_case_50:
-//line uri_parse.go:1533
+//line uri_parse.go:1535
 		switch data[p] {
 		case 58:
 			goto st12
@@ -1551,13 +1553,13 @@ tr38:
 		switch {
 		case data[p] > 90:
 			if 97 <= data[p] && data[p] <= 122 {
-				goto tr39
+				goto tr40
 			}
 		case data[p] >= 65:
-			goto tr39
+			goto tr40
 		}
 		goto st0
-tr39:
+tr40:
 //line uri_parse.rl:43
 
 			amt = 0
@@ -1572,7 +1574,7 @@ tr39:
 			amt++
 		
 	goto st27
-tr40:
+tr41:
 //line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
@@ -1588,32 +1590,32 @@ tr40:
 			goto _test_eof27
 		}
 	st_case_27:
-//line uri_parse.go:1584
+//line uri_parse.go:1586
 		switch data[p] {
 		case 43:
-			goto tr40
-		case 58:
 			goto tr41
+		case 58:
+			goto tr42
 		}
 		switch {
 		case data[p] < 48:
 			if 45 <= data[p] && data[p] <= 46 {
-				goto tr40
+				goto tr41
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr40
+					goto tr41
 				}
 			case data[p] >= 65:
-				goto tr40
+				goto tr41
 			}
 		default:
-			goto tr40
+			goto tr41
 		}
 		goto st0
-tr41:
+tr42:
 //line uri_parse.rl:70
 
 			uri.Scheme = string(buf[0:amt])
@@ -1624,32 +1626,32 @@ tr41:
 			goto _test_eof28
 		}
 	st_case_28:
-//line uri_parse.go:1620
+//line uri_parse.go:1622
 		switch data[p] {
 		case 43:
-			goto tr42
+			goto tr43
 		case 91:
 			goto st41
 		}
 		switch {
 		case data[p] < 48:
 			if 45 <= data[p] && data[p] <= 46 {
-				goto tr42
+				goto tr43
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr42
+					goto tr43
 				}
 			case data[p] >= 65:
-				goto tr42
+				goto tr43
 			}
 		default:
-			goto tr42
+			goto tr43
 		}
 		goto st0
-tr42:
+tr43:
 //line uri_parse.rl:43
 
 			amt = 0
@@ -1664,7 +1666,7 @@ tr42:
 			amt++
 		
 	goto st51
-tr88:
+tr89:
 //line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
@@ -1680,36 +1682,36 @@ tr88:
 			goto _test_eof51
 		}
 	st_case_51:
-//line uri_parse.go:1676
+//line uri_parse.go:1678
 		switch data[p] {
 		case 43:
-			goto tr88
-		case 58:
 			goto tr89
-		case 59:
+		case 58:
 			goto tr90
-		case 63:
+		case 59:
 			goto tr91
+		case 63:
+			goto tr92
 		}
 		switch {
 		case data[p] < 48:
 			if 45 <= data[p] && data[p] <= 46 {
-				goto tr88
+				goto tr89
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr88
+					goto tr89
 				}
 			case data[p] >= 65:
-				goto tr88
+				goto tr89
 			}
 		default:
-			goto tr88
+			goto tr89
 		}
 		goto st0
-tr89:
+tr90:
 //line uri_parse.rl:82
 
 			uri.Host = string(buf[0:amt])
@@ -1720,12 +1722,12 @@ tr89:
 			goto _test_eof29
 		}
 	st_case_29:
-//line uri_parse.go:1716
+//line uri_parse.go:1718
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr44
+			goto tr45
 		}
 		goto st0
-tr44:
+tr45:
 //line uri_parse.rl:86
 
 			if int(uri.Port) * 10 + int(data[p] - 0x30) > 65535 {
@@ -1739,7 +1741,7 @@ tr44:
 			goto _test_eof52
 		}
 	st_case_52:
-//line uri_parse.go:1735
+//line uri_parse.go:1737
 		switch data[p] {
 		case 59:
 			goto st30
@@ -1747,16 +1749,16 @@ tr44:
 			goto st36
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr44
+			goto tr45
 		}
 		goto st0
-tr90:
+tr91:
 //line uri_parse.rl:82
 
 			uri.Host = string(buf[0:amt])
 		
 	goto st30
-tr96:
+tr97:
 //line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
@@ -1767,7 +1769,7 @@ tr96:
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st30
-tr101:
+tr102:
 //line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
@@ -1783,45 +1785,45 @@ tr101:
 			goto _test_eof30
 		}
 	st_case_30:
-//line uri_parse.go:1779
+//line uri_parse.go:1781
 		switch data[p] {
 		case 33:
-			goto tr45
-		case 37:
 			goto tr46
+		case 37:
+			goto tr47
 		case 93:
-			goto tr45
+			goto tr46
 		case 95:
-			goto tr45
+			goto tr46
 		case 126:
-			goto tr45
+			goto tr46
 		}
 		switch {
 		case data[p] < 45:
 			if 36 <= data[p] && data[p] <= 43 {
-				goto tr45
+				goto tr46
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr45
+					goto tr46
 				}
 			case data[p] >= 65:
-				goto tr45
+				goto tr46
 			}
 		default:
-			goto tr45
+			goto tr46
 		}
 		goto st0
-tr94:
+tr95:
 //line uri_parse.rl:47
 
 			buf[amt] = data[p]
 			amt++
 		
 	goto st53
-tr48:
+tr49:
 //line uri_parse.rl:56
 
 			hex += unhex(data[p])
@@ -1829,7 +1831,7 @@ tr48:
 			amt++
 		
 	goto st53
-tr45:
+tr46:
 //line uri_parse.rl:43
 
 			amt = 0
@@ -1850,44 +1852,44 @@ tr45:
 			goto _test_eof53
 		}
 	st_case_53:
-//line uri_parse.go:1846
+//line uri_parse.go:1848
 		switch data[p] {
 		case 33:
-			goto tr94
+			goto tr95
 		case 37:
 			goto st31
 		case 59:
-			goto tr96
-		case 61:
 			goto tr97
-		case 63:
+		case 61:
 			goto tr98
+		case 63:
+			goto tr99
 		case 93:
-			goto tr94
+			goto tr95
 		case 95:
-			goto tr94
+			goto tr95
 		case 126:
-			goto tr94
+			goto tr95
 		}
 		switch {
 		case data[p] < 45:
 			if 36 <= data[p] && data[p] <= 43 {
-				goto tr94
+				goto tr95
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr94
+					goto tr95
 				}
 			case data[p] >= 65:
-				goto tr94
+				goto tr95
 			}
 		default:
-			goto tr94
+			goto tr95
 		}
 		goto st0
-tr46:
+tr47:
 //line uri_parse.rl:43
 
 			amt = 0
@@ -1903,21 +1905,21 @@ tr46:
 			goto _test_eof31
 		}
 	st_case_31:
-//line uri_parse.go:1899
+//line uri_parse.go:1901
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
-				goto tr47
+				goto tr48
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr47
+				goto tr48
 			}
 		default:
-			goto tr47
+			goto tr48
 		}
 		goto st0
-tr47:
+tr48:
 //line uri_parse.rl:52
 
 			hex = unhex(data[p]) * 16
@@ -1928,21 +1930,21 @@ tr47:
 			goto _test_eof32
 		}
 	st_case_32:
-//line uri_parse.go:1924
+//line uri_parse.go:1926
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
-				goto tr48
+				goto tr49
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr48
+				goto tr49
 			}
 		default:
-			goto tr48
+			goto tr49
 		}
 		goto st0
-tr97:
+tr98:
 //line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
@@ -1954,38 +1956,38 @@ tr97:
 			goto _test_eof33
 		}
 	st_case_33:
-//line uri_parse.go:1950
+//line uri_parse.go:1952
 		switch data[p] {
 		case 33:
-			goto tr49
-		case 37:
 			goto tr50
+		case 37:
+			goto tr51
 		case 93:
-			goto tr49
+			goto tr50
 		case 95:
-			goto tr49
+			goto tr50
 		case 126:
-			goto tr49
+			goto tr50
 		}
 		switch {
 		case data[p] < 45:
 			if 36 <= data[p] && data[p] <= 43 {
-				goto tr49
+				goto tr50
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr49
+					goto tr50
 				}
 			case data[p] >= 65:
-				goto tr49
+				goto tr50
 			}
 		default:
-			goto tr49
+			goto tr50
 		}
 		goto st0
-tr49:
+tr50:
 //line uri_parse.rl:43
 
 			amt = 0
@@ -1996,14 +1998,14 @@ tr49:
 			amt++
 		
 	goto st54
-tr99:
+tr100:
 //line uri_parse.rl:47
 
 			buf[amt] = data[p]
 			amt++
 		
 	goto st54
-tr52:
+tr53:
 //line uri_parse.rl:56
 
 			hex += unhex(data[p])
@@ -2016,42 +2018,42 @@ tr52:
 			goto _test_eof54
 		}
 	st_case_54:
-//line uri_parse.go:2012
+//line uri_parse.go:2014
 		switch data[p] {
 		case 33:
-			goto tr99
+			goto tr100
 		case 37:
 			goto st34
 		case 59:
-			goto tr101
-		case 63:
 			goto tr102
+		case 63:
+			goto tr103
 		case 93:
-			goto tr99
+			goto tr100
 		case 95:
-			goto tr99
+			goto tr100
 		case 126:
-			goto tr99
+			goto tr100
 		}
 		switch {
 		case data[p] < 45:
 			if 36 <= data[p] && data[p] <= 43 {
-				goto tr99
+				goto tr100
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr99
+					goto tr100
 				}
 			case data[p] >= 65:
-				goto tr99
+				goto tr100
 			}
 		default:
-			goto tr99
+			goto tr100
 		}
 		goto st0
-tr50:
+tr51:
 //line uri_parse.rl:43
 
 			amt = 0
@@ -2062,21 +2064,21 @@ tr50:
 			goto _test_eof34
 		}
 	st_case_34:
-//line uri_parse.go:2058
+//line uri_parse.go:2060
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
-				goto tr51
+				goto tr52
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr51
+				goto tr52
 			}
 		default:
-			goto tr51
+			goto tr52
 		}
 		goto st0
-tr51:
+tr52:
 //line uri_parse.rl:52
 
 			hex = unhex(data[p]) * 16
@@ -2087,27 +2089,27 @@ tr51:
 			goto _test_eof35
 		}
 	st_case_35:
-//line uri_parse.go:2083
+//line uri_parse.go:2085
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
-				goto tr52
+				goto tr53
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr52
+				goto tr53
 			}
 		default:
-			goto tr52
+			goto tr53
 		}
 		goto st0
-tr91:
+tr92:
 //line uri_parse.rl:82
 
 			uri.Host = string(buf[0:amt])
 		
 	goto st36
-tr98:
+tr99:
 //line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
@@ -2118,7 +2120,7 @@ tr98:
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st36
-tr102:
+tr103:
 //line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
@@ -2129,7 +2131,7 @@ tr102:
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st36
-tr105:
+tr106:
 //line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
@@ -2140,13 +2142,13 @@ tr105:
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
 	goto st36
-tr109:
+tr110:
 //line uri_parse.rl:116
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
 	goto st36
-tr112:
+tr113:
 //line uri_parse.rl:98
 
 			b2 = string(buf[0:amt])
@@ -2162,49 +2164,49 @@ tr112:
 			goto _test_eof36
 		}
 	st_case_36:
-//line uri_parse.go:2158
+//line uri_parse.go:2160
 		switch data[p] {
 		case 33:
-			goto tr53
+			goto tr54
 		case 36:
-			goto tr53
-		case 37:
 			goto tr54
+		case 37:
+			goto tr55
 		case 63:
-			goto tr53
+			goto tr54
 		case 93:
-			goto tr53
+			goto tr54
 		case 95:
-			goto tr53
+			goto tr54
 		case 126:
-			goto tr53
+			goto tr54
 		}
 		switch {
 		case data[p] < 45:
 			if 39 <= data[p] && data[p] <= 43 {
-				goto tr53
+				goto tr54
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr53
+					goto tr54
 				}
 			case data[p] >= 65:
-				goto tr53
+				goto tr54
 			}
 		default:
-			goto tr53
+			goto tr54
 		}
 		goto st0
-tr103:
+tr104:
 //line uri_parse.rl:47
 
 			buf[amt] = data[p]
 			amt++
 		
 	goto st55
-tr56:
+tr57:
 //line uri_parse.rl:56
 
 			hex += unhex(data[p])
@@ -2212,7 +2214,7 @@ tr56:
 			amt++
 		
 	goto st55
-tr53:
+tr54:
 //line uri_parse.rl:43
 
 			amt = 0
@@ -2233,44 +2235,44 @@ tr53:
 			goto _test_eof55
 		}
 	st_case_55:
-//line uri_parse.go:2229
+//line uri_parse.go:2231
 		switch data[p] {
 		case 33:
-			goto tr103
+			goto tr104
 		case 37:
 			goto st37
 		case 38:
-			goto tr105
-		case 61:
 			goto tr106
+		case 61:
+			goto tr107
 		case 63:
-			goto tr103
+			goto tr104
 		case 93:
-			goto tr103
+			goto tr104
 		case 95:
-			goto tr103
+			goto tr104
 		case 126:
-			goto tr103
+			goto tr104
 		}
 		switch {
 		case data[p] < 45:
 			if 36 <= data[p] && data[p] <= 43 {
-				goto tr103
+				goto tr104
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr103
+					goto tr104
 				}
 			case data[p] >= 65:
-				goto tr103
+				goto tr104
 			}
 		default:
-			goto tr103
+			goto tr104
 		}
 		goto st0
-tr54:
+tr55:
 //line uri_parse.rl:43
 
 			amt = 0
@@ -2286,21 +2288,21 @@ tr54:
 			goto _test_eof37
 		}
 	st_case_37:
-//line uri_parse.go:2282
+//line uri_parse.go:2284
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
-				goto tr55
+				goto tr56
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr55
+				goto tr56
 			}
 		default:
-			goto tr55
+			goto tr56
 		}
 		goto st0
-tr55:
+tr56:
 //line uri_parse.rl:52
 
 			hex = unhex(data[p]) * 16
@@ -2311,21 +2313,21 @@ tr55:
 			goto _test_eof38
 		}
 	st_case_38:
-//line uri_parse.go:2307
+//line uri_parse.go:2309
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
-				goto tr56
+				goto tr57
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr56
+				goto tr57
 			}
 		default:
-			goto tr56
+			goto tr57
 		}
 		goto st0
-tr106:
+tr107:
 //line uri_parse.rl:93
 
 			b1 = string(buf[0:amt])
@@ -2337,42 +2339,42 @@ tr106:
 			goto _test_eof56
 		}
 	st_case_56:
-//line uri_parse.go:2333
+//line uri_parse.go:2335
 		switch data[p] {
 		case 33:
-			goto tr107
-		case 37:
 			goto tr108
-		case 38:
+		case 37:
 			goto tr109
+		case 38:
+			goto tr110
 		case 63:
-			goto tr107
+			goto tr108
 		case 93:
-			goto tr107
+			goto tr108
 		case 95:
-			goto tr107
+			goto tr108
 		case 126:
-			goto tr107
+			goto tr108
 		}
 		switch {
 		case data[p] < 45:
 			if 36 <= data[p] && data[p] <= 43 {
-				goto tr107
+				goto tr108
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr107
+					goto tr108
 				}
 			case data[p] >= 65:
-				goto tr107
+				goto tr108
 			}
 		default:
-			goto tr107
+			goto tr108
 		}
 		goto st0
-tr107:
+tr108:
 //line uri_parse.rl:43
 
 			amt = 0
@@ -2383,14 +2385,14 @@ tr107:
 			amt++
 		
 	goto st57
-tr110:
+tr111:
 //line uri_parse.rl:47
 
 			buf[amt] = data[p]
 			amt++
 		
 	goto st57
-tr58:
+tr59:
 //line uri_parse.rl:56
 
 			hex += unhex(data[p])
@@ -2403,42 +2405,42 @@ tr58:
 			goto _test_eof57
 		}
 	st_case_57:
-//line uri_parse.go:2399
+//line uri_parse.go:2401
 		switch data[p] {
 		case 33:
-			goto tr110
+			goto tr111
 		case 37:
 			goto st39
 		case 38:
-			goto tr112
+			goto tr113
 		case 63:
-			goto tr110
+			goto tr111
 		case 93:
-			goto tr110
+			goto tr111
 		case 95:
-			goto tr110
+			goto tr111
 		case 126:
-			goto tr110
+			goto tr111
 		}
 		switch {
 		case data[p] < 45:
 			if 36 <= data[p] && data[p] <= 43 {
-				goto tr110
+				goto tr111
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr110
+					goto tr111
 				}
 			case data[p] >= 65:
-				goto tr110
+				goto tr111
 			}
 		default:
-			goto tr110
+			goto tr111
 		}
 		goto st0
-tr108:
+tr109:
 //line uri_parse.rl:43
 
 			amt = 0
@@ -2449,21 +2451,21 @@ tr108:
 			goto _test_eof39
 		}
 	st_case_39:
-//line uri_parse.go:2445
+//line uri_parse.go:2447
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
-				goto tr57
+				goto tr58
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr57
+				goto tr58
 			}
 		default:
-			goto tr57
+			goto tr58
 		}
 		goto st0
-tr57:
+tr58:
 //line uri_parse.rl:52
 
 			hex = unhex(data[p]) * 16
@@ -2474,18 +2476,18 @@ tr57:
 			goto _test_eof40
 		}
 	st_case_40:
-//line uri_parse.go:2470
+//line uri_parse.go:2472
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
-				goto tr58
+				goto tr59
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr58
+				goto tr59
 			}
 		default:
-			goto tr58
+			goto tr59
 		}
 		goto st0
 	st41:
@@ -2494,22 +2496,22 @@ tr57:
 		}
 	st_case_41:
 		if data[p] == 46 {
-			goto tr59
+			goto tr60
 		}
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 58 {
-				goto tr59
+				goto tr60
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr59
+				goto tr60
 			}
 		default:
-			goto tr59
+			goto tr60
 		}
 		goto st0
-tr59:
+tr60:
 //line uri_parse.rl:43
 
 			amt = 0
@@ -2524,7 +2526,7 @@ tr59:
 			amt++
 		
 	goto st42
-tr60:
+tr61:
 //line uri_parse.rl:103
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
@@ -2540,27 +2542,27 @@ tr60:
 			goto _test_eof42
 		}
 	st_case_42:
-//line uri_parse.go:2536
+//line uri_parse.go:2538
 		switch data[p] {
 		case 46:
-			goto tr60
-		case 93:
 			goto tr61
+		case 93:
+			goto tr62
 		}
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 58 {
-				goto tr60
+				goto tr61
 			}
 		case data[p] > 70:
 			if 97 <= data[p] && data[p] <= 102 {
-				goto tr60
+				goto tr61
 			}
 		default:
-			goto tr60
+			goto tr61
 		}
 		goto st0
-tr61:
+tr62:
 //line uri_parse.rl:82
 
 			uri.Host = string(buf[0:amt])
@@ -2571,7 +2573,7 @@ tr61:
 			goto _test_eof58
 		}
 	st_case_58:
-//line uri_parse.go:2567
+//line uri_parse.go:2569
 		switch data[p] {
 		case 58:
 			goto st29
@@ -2692,7 +2694,7 @@ tr61:
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
-//line uri_parse.go:2688
+//line uri_parse.go:2690
 		}
 	}
 
diff --git a/sip/uri_parse.rl b/sip/uri_parse.rl
index 466d315..1cb32d0 100644
--- a/sip/uri_parse.rl
+++ b/sip/uri_parse.rl
@@ -153,7 +153,7 @@ func ParseURI(data []byte) (uri *URI, err error) {
 		headerval       = headerchar+ >start %b2;
 		header          = headerkey ( "=" headerval? )? %header;
 		headers         = "?" header ( "&" header )*;
-		userpass        = user ( ":" pass )?;
+		userpass        = user ( ":" pass? )?;
 		hostport        = host ( ":" port )?;
 		uriSansUser    := scheme ":" hostport param* headers?;
 		uriWithUser    := scheme ":" userpass "@" hostport param* headers?;
-- 
2.43.0


From 27cd09471ea881be096dbd45f18884f2dc3f4227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:10 +0000
Subject: [PATCH 52/58] fix: unquoted display name right before angle bracket
 made messages malformed

---
 sip/msg_parse.go | 6663 +++++++++++++++++++++++-----------------------
 sip/sip.rl       |    2 +-
 2 files changed, 3279 insertions(+), 3386 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index 3d70038..3afaa9b 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -30,7 +30,7 @@ import (
 
 //line msg_parse.go:28
 const msg_start int = 1
-const msg_first_final int = 748
+const msg_first_final int = 746
 const msg_error int = 0
 
 const msg_en_ctype int = 34
@@ -38,11 +38,11 @@ const msg_en_via_param int = 68
 const msg_en_via int = 103
 const msg_en_addr_param int = 153
 const msg_en_addr_angled int = 188
-const msg_en_addr_uri int = 229
-const msg_en_addr int = 246
-const msg_en_value int = 253
-const msg_en_xheader int = 263
-const msg_en_header int = 270
+const msg_en_addr_uri int = 228
+const msg_en_addr int = 245
+const msg_en_value int = 251
+const msg_en_xheader int = 261
+const msg_en_header int = 268
 const msg_en_main int = 1
 
 
@@ -118,8 +118,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_12
 	case 13:
 		goto st_case_13
-	case 748:
-		goto st_case_748
+	case 746:
+		goto st_case_746
 	case 14:
 		goto st_case_14
 	case 15:
@@ -182,8 +182,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_43
 	case 44:
 		goto st_case_44
-	case 749:
-		goto st_case_749
+	case 747:
+		goto st_case_747
 	case 45:
 		goto st_case_45
 	case 46:
@@ -238,8 +238,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_70
 	case 71:
 		goto st_case_71
-	case 750:
-		goto st_case_750
+	case 748:
+		goto st_case_748
 	case 72:
 		goto st_case_72
 	case 73:
@@ -326,8 +326,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_113
 	case 114:
 		goto st_case_114
-	case 751:
-		goto st_case_751
+	case 749:
+		goto st_case_749
 	case 115:
 		goto st_case_115
 	case 116:
@@ -412,8 +412,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_155
 	case 156:
 		goto st_case_156
-	case 752:
-		goto st_case_752
+	case 750:
+		goto st_case_750
 	case 157:
 		goto st_case_157
 	case 158:
@@ -492,8 +492,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_194
 	case 195:
 		goto st_case_195
-	case 753:
-		goto st_case_753
+	case 751:
+		goto st_case_751
 	case 196:
 		goto st_case_196
 	case 197:
@@ -570,10 +570,10 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_232
 	case 233:
 		goto st_case_233
+	case 752:
+		goto st_case_752
 	case 234:
 		goto st_case_234
-	case 754:
-		goto st_case_754
 	case 235:
 		goto st_case_235
 	case 236:
@@ -598,12 +598,12 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_245
 	case 246:
 		goto st_case_246
+	case 753:
+		goto st_case_753
 	case 247:
 		goto st_case_247
 	case 248:
 		goto st_case_248
-	case 755:
-		goto st_case_755
 	case 249:
 		goto st_case_249
 	case 250:
@@ -624,12 +624,12 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_257
 	case 258:
 		goto st_case_258
+	case 754:
+		goto st_case_754
 	case 259:
 		goto st_case_259
 	case 260:
 		goto st_case_260
-	case 756:
-		goto st_case_756
 	case 261:
 		goto st_case_261
 	case 262:
@@ -638,24 +638,24 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_263
 	case 264:
 		goto st_case_264
+	case 755:
+		goto st_case_755
 	case 265:
 		goto st_case_265
 	case 266:
 		goto st_case_266
-	case 757:
-		goto st_case_757
 	case 267:
 		goto st_case_267
 	case 268:
 		goto st_case_268
 	case 269:
 		goto st_case_269
+	case 756:
+		goto st_case_756
 	case 270:
 		goto st_case_270
 	case 271:
 		goto st_case_271
-	case 758:
-		goto st_case_758
 	case 272:
 		goto st_case_272
 	case 273:
@@ -1604,10 +1604,6 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_744
 	case 745:
 		goto st_case_745
-	case 746:
-		goto st_case_746
-	case 747:
-		goto st_case_747
 	}
 	goto st_out
 	st_case_1:
@@ -1648,15 +1644,15 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 			goto tr0
 		}
 		goto st0
-tr398:
+tr395:
 //line sip.rl:180
 
 	p = ( mark) - 1
 
-	{goto st263 }
+	{goto st261 }
 
 	goto st0
-//line msg_parse.go:1651
+//line msg_parse.go:1647
 st_case_0:
 	st0:
 		cs = 0
@@ -1672,7 +1668,7 @@ tr0:
 			goto _test_eof2
 		}
 	st_case_2:
-//line msg_parse.go:1667
+//line msg_parse.go:1663
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -1719,7 +1715,7 @@ tr3:
 			goto _test_eof3
 		}
 	st_case_3:
-//line msg_parse.go:1714
+//line msg_parse.go:1710
 		if data[p] == 32 {
 			goto st0
 		}
@@ -1735,7 +1731,7 @@ tr5:
 			goto _test_eof4
 		}
 	st_case_4:
-//line msg_parse.go:1730
+//line msg_parse.go:1726
 		if data[p] == 32 {
 			goto tr7
 		}
@@ -1752,7 +1748,7 @@ tr7:
 			goto _test_eof5
 		}
 	st_case_5:
-//line msg_parse.go:1747
+//line msg_parse.go:1743
 		switch data[p] {
 		case 83:
 			goto st6
@@ -1816,7 +1812,7 @@ tr12:
 			goto _test_eof10
 		}
 	st_case_10:
-//line msg_parse.go:1811
+//line msg_parse.go:1807
 		if data[p] == 46 {
 			goto st11
 		}
@@ -1847,7 +1843,7 @@ tr14:
 			goto _test_eof12
 		}
 	st_case_12:
-//line msg_parse.go:1842
+//line msg_parse.go:1838
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -1883,21 +1879,21 @@ tr43:
 			goto _test_eof13
 		}
 	st_case_13:
-//line msg_parse.go:1878
+//line msg_parse.go:1874
 		if data[p] == 10 {
 			goto tr16
 		}
 		goto st0
 tr16:
 //line sip.rl:281
- {goto st270 } 
-	goto st748
-	st748:
+ {goto st268 } 
+	goto st746
+	st746:
 		if p++; p == pe {
-			goto _test_eof748
+			goto _test_eof746
 		}
-	st_case_748:
-//line msg_parse.go:1892
+	st_case_746:
+//line msg_parse.go:1888
 		goto st0
 tr2:
 //line sip.rl:80
@@ -1910,7 +1906,7 @@ tr2:
 			goto _test_eof14
 		}
 	st_case_14:
-//line msg_parse.go:1905
+//line msg_parse.go:1901
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -2054,7 +2050,7 @@ tr20:
 			goto _test_eof18
 		}
 	st_case_18:
-//line msg_parse.go:2049
+//line msg_parse.go:2045
 		if data[p] == 46 {
 			goto st19
 		}
@@ -2085,7 +2081,7 @@ tr22:
 			goto _test_eof20
 		}
 	st_case_20:
-//line msg_parse.go:2080
+//line msg_parse.go:2076
 		if data[p] == 32 {
 			goto st21
 		}
@@ -2113,7 +2109,7 @@ tr24:
 			goto _test_eof22
 		}
 	st_case_22:
-//line msg_parse.go:2108
+//line msg_parse.go:2104
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr25
 		}
@@ -2129,7 +2125,7 @@ tr25:
 			goto _test_eof23
 		}
 	st_case_23:
-//line msg_parse.go:2124
+//line msg_parse.go:2120
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr26
 		}
@@ -2145,7 +2141,7 @@ tr26:
 			goto _test_eof24
 		}
 	st_case_24:
-//line msg_parse.go:2140
+//line msg_parse.go:2136
 		if data[p] == 32 {
 			goto st25
 		}
@@ -2248,7 +2244,7 @@ tr45:
 			goto _test_eof26
 		}
 	st_case_26:
-//line msg_parse.go:2243
+//line msg_parse.go:2239
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2322,7 +2318,7 @@ tr29:
 			goto _test_eof27
 		}
 	st_case_27:
-//line msg_parse.go:2317
+//line msg_parse.go:2313
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2347,7 +2343,7 @@ tr44:
 			goto _test_eof28
 		}
 	st_case_28:
-//line msg_parse.go:2342
+//line msg_parse.go:2338
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2384,7 +2380,7 @@ tr38:
 			goto _test_eof29
 		}
 	st_case_29:
-//line msg_parse.go:2379
+//line msg_parse.go:2375
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr36
 		}
@@ -2412,7 +2408,7 @@ tr39:
 			goto _test_eof30
 		}
 	st_case_30:
-//line msg_parse.go:2407
+//line msg_parse.go:2403
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr38
 		}
@@ -2440,7 +2436,7 @@ tr40:
 			goto _test_eof31
 		}
 	st_case_31:
-//line msg_parse.go:2435
+//line msg_parse.go:2431
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr39
 		}
@@ -2468,7 +2464,7 @@ tr41:
 			goto _test_eof32
 		}
 	st_case_32:
-//line msg_parse.go:2463
+//line msg_parse.go:2459
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr40
 		}
@@ -2496,7 +2492,7 @@ tr42:
 			goto _test_eof33
 		}
 	st_case_33:
-//line msg_parse.go:2491
+//line msg_parse.go:2487
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr41
 		}
@@ -2550,7 +2546,7 @@ tr46:
 			goto _test_eof35
 		}
 	st_case_35:
-//line msg_parse.go:2545
+//line msg_parse.go:2541
 		switch data[p] {
 		case 33:
 			goto st35
@@ -2685,7 +2681,7 @@ tr50:
 			goto _test_eof38
 		}
 	st_case_38:
-//line msg_parse.go:2680
+//line msg_parse.go:2676
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2715,7 +2711,7 @@ tr51:
 			goto _test_eof39
 		}
 	st_case_39:
-//line msg_parse.go:2710
+//line msg_parse.go:2706
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2957,21 +2953,21 @@ tr52:
 			goto _test_eof44
 		}
 	st_case_44:
-//line msg_parse.go:2952
+//line msg_parse.go:2948
 		if data[p] == 10 {
 			goto tr66
 		}
 		goto st0
 tr66:
 //line sip.rl:281
- {goto st270 } 
-	goto st749
-	st749:
+ {goto st268 } 
+	goto st747
+	st747:
 		if p++; p == pe {
-			goto _test_eof749
+			goto _test_eof747
 		}
-	st_case_749:
-//line msg_parse.go:2966
+	st_case_747:
+//line msg_parse.go:2962
 		goto st0
 tr53:
 //line sip.rl:240
@@ -2984,7 +2980,7 @@ tr53:
 			goto _test_eof45
 		}
 	st_case_45:
-//line msg_parse.go:2979
+//line msg_parse.go:2975
 		if data[p] == 10 {
 			goto st46
 		}
@@ -3087,7 +3083,7 @@ tr78:
 			goto _test_eof49
 		}
 	st_case_49:
-//line msg_parse.go:3082
+//line msg_parse.go:3078
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3143,7 +3139,7 @@ tr70:
 			goto _test_eof50
 		}
 	st_case_50:
-//line msg_parse.go:3138
+//line msg_parse.go:3134
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3175,7 +3171,7 @@ tr71:
 			goto _test_eof51
 		}
 	st_case_51:
-//line msg_parse.go:3170
+//line msg_parse.go:3166
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -3212,7 +3208,7 @@ tr81:
 			goto _test_eof52
 		}
 	st_case_52:
-//line msg_parse.go:3207
+//line msg_parse.go:3203
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr78
 		}
@@ -3240,7 +3236,7 @@ tr82:
 			goto _test_eof53
 		}
 	st_case_53:
-//line msg_parse.go:3235
+//line msg_parse.go:3231
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr81
 		}
@@ -3268,7 +3264,7 @@ tr83:
 			goto _test_eof54
 		}
 	st_case_54:
-//line msg_parse.go:3263
+//line msg_parse.go:3259
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr82
 		}
@@ -3296,7 +3292,7 @@ tr84:
 			goto _test_eof55
 		}
 	st_case_55:
-//line msg_parse.go:3291
+//line msg_parse.go:3287
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr83
 		}
@@ -3324,7 +3320,7 @@ tr85:
 			goto _test_eof56
 		}
 	st_case_56:
-//line msg_parse.go:3319
+//line msg_parse.go:3315
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr84
 		}
@@ -3352,7 +3348,7 @@ tr86:
 			goto _test_eof57
 		}
 	st_case_57:
-//line msg_parse.go:3347
+//line msg_parse.go:3343
 		if data[p] == 10 {
 			goto tr87
 		}
@@ -3369,7 +3365,7 @@ tr87:
 			goto _test_eof58
 		}
 	st_case_58:
-//line msg_parse.go:3364
+//line msg_parse.go:3360
 		switch data[p] {
 		case 9:
 			goto tr78
@@ -3593,7 +3589,7 @@ tr94:
 			goto _test_eof69
 		}
 	st_case_69:
-//line msg_parse.go:3588
+//line msg_parse.go:3584
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3654,7 +3650,7 @@ tr95:
 			goto _test_eof70
 		}
 	st_case_70:
-//line msg_parse.go:3649
+//line msg_parse.go:3645
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3688,7 +3684,7 @@ tr97:
 			goto _test_eof71
 		}
 	st_case_71:
-//line msg_parse.go:3683
+//line msg_parse.go:3679
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3737,7 +3733,7 @@ tr107:
 
 //line sip.rl:283
  {goto st103 } 
-	goto st750
+	goto st748
 tr111:
 //line sip.rl:176
 
@@ -3754,7 +3750,7 @@ tr111:
 
 //line sip.rl:284
  {goto st68 } 
-	goto st750
+	goto st748
 tr123:
 //line sip.rl:176
 
@@ -3767,14 +3763,14 @@ tr123:
 	via = nil
 
 //line sip.rl:281
- {goto st270 } 
-	goto st750
-	st750:
+ {goto st268 } 
+	goto st748
+	st748:
 		if p++; p == pe {
-			goto _test_eof750
+			goto _test_eof748
 		}
-	st_case_750:
-//line msg_parse.go:3769
+	st_case_748:
+//line msg_parse.go:3765
 		goto st0
 	st72:
 		if p++; p == pe {
@@ -3820,7 +3816,7 @@ tr98:
 			goto _test_eof75
 		}
 	st_case_75:
-//line msg_parse.go:3815
+//line msg_parse.go:3811
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3891,7 +3887,7 @@ tr99:
 			goto _test_eof79
 		}
 	st_case_79:
-//line msg_parse.go:3886
+//line msg_parse.go:3882
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3954,7 +3950,7 @@ tr115:
 			goto _test_eof80
 		}
 	st_case_80:
-//line msg_parse.go:3949
+//line msg_parse.go:3945
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4077,7 +4073,7 @@ tr100:
 			goto _test_eof85
 		}
 	st_case_85:
-//line msg_parse.go:4072
+//line msg_parse.go:4068
 		if data[p] == 10 {
 			goto tr123
 		}
@@ -4154,7 +4150,7 @@ tr133:
 			goto _test_eof87
 		}
 	st_case_87:
-//line msg_parse.go:4149
+//line msg_parse.go:4145
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4210,7 +4206,7 @@ tr125:
 			goto _test_eof88
 		}
 	st_case_88:
-//line msg_parse.go:4205
+//line msg_parse.go:4201
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4244,7 +4240,7 @@ tr126:
 			goto _test_eof89
 		}
 	st_case_89:
-//line msg_parse.go:4239
+//line msg_parse.go:4235
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -4281,7 +4277,7 @@ tr136:
 			goto _test_eof90
 		}
 	st_case_90:
-//line msg_parse.go:4276
+//line msg_parse.go:4272
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr133
 		}
@@ -4309,7 +4305,7 @@ tr137:
 			goto _test_eof91
 		}
 	st_case_91:
-//line msg_parse.go:4304
+//line msg_parse.go:4300
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr136
 		}
@@ -4337,7 +4333,7 @@ tr138:
 			goto _test_eof92
 		}
 	st_case_92:
-//line msg_parse.go:4332
+//line msg_parse.go:4328
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr137
 		}
@@ -4365,7 +4361,7 @@ tr139:
 			goto _test_eof93
 		}
 	st_case_93:
-//line msg_parse.go:4360
+//line msg_parse.go:4356
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr138
 		}
@@ -4393,7 +4389,7 @@ tr140:
 			goto _test_eof94
 		}
 	st_case_94:
-//line msg_parse.go:4388
+//line msg_parse.go:4384
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr139
 		}
@@ -4421,7 +4417,7 @@ tr141:
 			goto _test_eof95
 		}
 	st_case_95:
-//line msg_parse.go:4416
+//line msg_parse.go:4412
 		if data[p] == 10 {
 			goto tr142
 		}
@@ -4438,7 +4434,7 @@ tr142:
 			goto _test_eof96
 		}
 	st_case_96:
-//line msg_parse.go:4433
+//line msg_parse.go:4429
 		switch data[p] {
 		case 9:
 			goto tr133
@@ -4524,7 +4520,7 @@ tr101:
 			goto _test_eof100
 		}
 	st_case_100:
-//line msg_parse.go:4519
+//line msg_parse.go:4515
 		if data[p] == 10 {
 			goto st101
 		}
@@ -4608,7 +4604,7 @@ tr147:
 			goto _test_eof104
 		}
 	st_case_104:
-//line msg_parse.go:4603
+//line msg_parse.go:4599
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4663,7 +4659,7 @@ tr148:
 			goto _test_eof105
 		}
 	st_case_105:
-//line msg_parse.go:4658
+//line msg_parse.go:4654
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4693,7 +4689,7 @@ tr150:
 			goto _test_eof106
 		}
 	st_case_106:
-//line msg_parse.go:4688
+//line msg_parse.go:4684
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4751,7 +4747,7 @@ tr155:
 			goto _test_eof107
 		}
 	st_case_107:
-//line msg_parse.go:4746
+//line msg_parse.go:4742
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4806,7 +4802,7 @@ tr157:
 			goto _test_eof108
 		}
 	st_case_108:
-//line msg_parse.go:4801
+//line msg_parse.go:4797
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4836,7 +4832,7 @@ tr159:
 			goto _test_eof109
 		}
 	st_case_109:
-//line msg_parse.go:4831
+//line msg_parse.go:4827
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4894,7 +4890,7 @@ tr164:
 			goto _test_eof110
 		}
 	st_case_110:
-//line msg_parse.go:4889
+//line msg_parse.go:4885
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4952,7 +4948,7 @@ tr166:
 			goto _test_eof111
 		}
 	st_case_111:
-//line msg_parse.go:4947
+//line msg_parse.go:4943
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4999,7 +4995,7 @@ tr170:
 			goto _test_eof112
 		}
 	st_case_112:
-//line msg_parse.go:4994
+//line msg_parse.go:4990
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5052,7 +5048,7 @@ tr173:
 			goto _test_eof113
 		}
 	st_case_113:
-//line msg_parse.go:5047
+//line msg_parse.go:5043
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5086,7 +5082,7 @@ tr174:
 			goto _test_eof114
 		}
 	st_case_114:
-//line msg_parse.go:5081
+//line msg_parse.go:5077
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5131,7 +5127,7 @@ tr185:
 
 //line sip.rl:283
  {goto st103 } 
-	goto st751
+	goto st749
 tr194:
 //line sip.rl:72
 
@@ -5144,7 +5140,7 @@ tr194:
 
 //line sip.rl:284
  {goto st68 } 
-	goto st751
+	goto st749
 tr200:
 //line sip.rl:147
 
@@ -5153,14 +5149,14 @@ tr200:
 	via = nil
 
 //line sip.rl:281
- {goto st270 } 
-	goto st751
-	st751:
+ {goto st268 } 
+	goto st749
+	st749:
 		if p++; p == pe {
-			goto _test_eof751
+			goto _test_eof749
 		}
-	st_case_751:
-//line msg_parse.go:5155
+	st_case_749:
+//line msg_parse.go:5151
 		goto st0
 	st115:
 		if p++; p == pe {
@@ -5206,7 +5202,7 @@ tr176:
 			goto _test_eof118
 		}
 	st_case_118:
-//line msg_parse.go:5201
+//line msg_parse.go:5197
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5240,7 +5236,7 @@ tr189:
 			goto _test_eof119
 		}
 	st_case_119:
-//line msg_parse.go:5235
+//line msg_parse.go:5231
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5302,7 +5298,7 @@ tr177:
 			goto _test_eof121
 		}
 	st_case_121:
-//line msg_parse.go:5297
+//line msg_parse.go:5293
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5410,7 +5406,7 @@ tr178:
 			goto _test_eof128
 		}
 	st_case_128:
-//line msg_parse.go:5405
+//line msg_parse.go:5401
 		if data[p] == 10 {
 			goto tr200
 		}
@@ -5462,7 +5458,7 @@ tr179:
 			goto _test_eof132
 		}
 	st_case_132:
-//line msg_parse.go:5457
+//line msg_parse.go:5453
 		if data[p] == 10 {
 			goto st133
 		}
@@ -5529,7 +5525,7 @@ tr205:
 			goto _test_eof136
 		}
 	st_case_136:
-//line msg_parse.go:5524
+//line msg_parse.go:5520
 		switch data[p] {
 		case 46:
 			goto st136
@@ -5560,7 +5556,7 @@ tr207:
 			goto _test_eof137
 		}
 	st_case_137:
-//line msg_parse.go:5555
+//line msg_parse.go:5551
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5596,7 +5592,7 @@ tr168:
 			goto _test_eof138
 		}
 	st_case_138:
-//line msg_parse.go:5591
+//line msg_parse.go:5587
 		if data[p] == 10 {
 			goto st139
 		}
@@ -5718,7 +5714,7 @@ tr160:
 			goto _test_eof144
 		}
 	st_case_144:
-//line msg_parse.go:5713
+//line msg_parse.go:5709
 		if data[p] == 10 {
 			goto st145
 		}
@@ -5823,7 +5819,7 @@ tr151:
 			goto _test_eof150
 		}
 	st_case_150:
-//line msg_parse.go:5818
+//line msg_parse.go:5814
 		if data[p] == 10 {
 			goto st151
 		}
@@ -5907,7 +5903,7 @@ tr218:
 			goto _test_eof154
 		}
 	st_case_154:
-//line msg_parse.go:5902
+//line msg_parse.go:5898
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5968,7 +5964,7 @@ tr219:
 			goto _test_eof155
 		}
 	st_case_155:
-//line msg_parse.go:5963
+//line msg_parse.go:5959
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6002,7 +5998,7 @@ tr221:
 			goto _test_eof156
 		}
 	st_case_156:
-//line msg_parse.go:5997
+//line msg_parse.go:5993
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6046,8 +6042,8 @@ tr231:
 
 
 //line sip.rl:276
- {goto st246 } 
-	goto st752
+ {goto st245 } 
+	goto st750
 tr235:
 //line sip.rl:219
 
@@ -6060,7 +6056,7 @@ tr235:
 
 //line sip.rl:278
  {goto st153 } 
-	goto st752
+	goto st750
 tr247:
 //line sip.rl:219
 
@@ -6073,14 +6069,14 @@ tr247:
 	addr = nil
 
 //line sip.rl:281
- {goto st270 } 
-	goto st752
-	st752:
+ {goto st268 } 
+	goto st750
+	st750:
 		if p++; p == pe {
-			goto _test_eof752
+			goto _test_eof750
 		}
-	st_case_752:
-//line msg_parse.go:6075
+	st_case_750:
+//line msg_parse.go:6071
 		goto st0
 	st157:
 		if p++; p == pe {
@@ -6126,7 +6122,7 @@ tr222:
 			goto _test_eof160
 		}
 	st_case_160:
-//line msg_parse.go:6121
+//line msg_parse.go:6117
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6197,7 +6193,7 @@ tr223:
 			goto _test_eof164
 		}
 	st_case_164:
-//line msg_parse.go:6192
+//line msg_parse.go:6188
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6260,7 +6256,7 @@ tr239:
 			goto _test_eof165
 		}
 	st_case_165:
-//line msg_parse.go:6255
+//line msg_parse.go:6251
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6383,7 +6379,7 @@ tr224:
 			goto _test_eof170
 		}
 	st_case_170:
-//line msg_parse.go:6378
+//line msg_parse.go:6374
 		if data[p] == 10 {
 			goto tr247
 		}
@@ -6460,7 +6456,7 @@ tr257:
 			goto _test_eof172
 		}
 	st_case_172:
-//line msg_parse.go:6455
+//line msg_parse.go:6451
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6516,7 +6512,7 @@ tr249:
 			goto _test_eof173
 		}
 	st_case_173:
-//line msg_parse.go:6511
+//line msg_parse.go:6507
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6550,7 +6546,7 @@ tr250:
 			goto _test_eof174
 		}
 	st_case_174:
-//line msg_parse.go:6545
+//line msg_parse.go:6541
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -6587,7 +6583,7 @@ tr260:
 			goto _test_eof175
 		}
 	st_case_175:
-//line msg_parse.go:6582
+//line msg_parse.go:6578
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr257
 		}
@@ -6615,7 +6611,7 @@ tr261:
 			goto _test_eof176
 		}
 	st_case_176:
-//line msg_parse.go:6610
+//line msg_parse.go:6606
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr260
 		}
@@ -6643,7 +6639,7 @@ tr262:
 			goto _test_eof177
 		}
 	st_case_177:
-//line msg_parse.go:6638
+//line msg_parse.go:6634
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr261
 		}
@@ -6671,7 +6667,7 @@ tr263:
 			goto _test_eof178
 		}
 	st_case_178:
-//line msg_parse.go:6666
+//line msg_parse.go:6662
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr262
 		}
@@ -6699,7 +6695,7 @@ tr264:
 			goto _test_eof179
 		}
 	st_case_179:
-//line msg_parse.go:6694
+//line msg_parse.go:6690
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr263
 		}
@@ -6727,7 +6723,7 @@ tr265:
 			goto _test_eof180
 		}
 	st_case_180:
-//line msg_parse.go:6722
+//line msg_parse.go:6718
 		if data[p] == 10 {
 			goto tr266
 		}
@@ -6744,7 +6740,7 @@ tr266:
 			goto _test_eof181
 		}
 	st_case_181:
-//line msg_parse.go:6739
+//line msg_parse.go:6735
 		switch data[p] {
 		case 9:
 			goto tr257
@@ -6830,7 +6826,7 @@ tr225:
 			goto _test_eof185
 		}
 	st_case_185:
-//line msg_parse.go:6825
+//line msg_parse.go:6821
 		if data[p] == 10 {
 			goto st186
 		}
@@ -6920,7 +6916,7 @@ tr225:
 			goto tr272
 		}
 		goto st0
-tr330:
+tr328:
 //line sip.rl:202
 
 	addr.Display = string(buf[0:amt])
@@ -6931,7 +6927,7 @@ tr330:
 			goto _test_eof189
 		}
 	st_case_189:
-//line msg_parse.go:6926
+//line msg_parse.go:6922
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6950,7 +6946,7 @@ tr330:
 			goto st210
 		}
 		goto st0
-tr306:
+tr304:
 //line sip.rl:206
 {
 	end := p
@@ -6960,7 +6956,7 @@ tr306:
 	addr.Display = string(data[mark:end])
 }
 	goto st190
-tr331:
+tr329:
 //line sip.rl:202
 
 	addr.Display = string(buf[0:amt])
@@ -6971,7 +6967,7 @@ tr331:
 			goto _test_eof190
 		}
 	st_case_190:
-//line msg_parse.go:6966
+//line msg_parse.go:6962
 		switch {
 		case data[p] > 90:
 			if 97 <= data[p] && data[p] <= 122 {
@@ -6992,7 +6988,7 @@ tr276:
 			goto _test_eof191
 		}
 	st_case_191:
-//line msg_parse.go:6987
+//line msg_parse.go:6983
 		switch data[p] {
 		case 43:
 			goto st191
@@ -7089,7 +7085,7 @@ tr280:
 			goto _test_eof194
 		}
 	st_case_194:
-//line msg_parse.go:7084
+//line msg_parse.go:7080
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7156,8 +7152,8 @@ tr286:
 
 
 //line sip.rl:276
- {goto st246 } 
-	goto st753
+ {goto st245 } 
+	goto st751
 tr290:
 //line sip.rl:72
 
@@ -7166,7 +7162,7 @@ tr290:
 
 //line sip.rl:278
  {goto st153 } 
-	goto st753
+	goto st751
 tr294:
 //line sip.rl:223
 
@@ -7175,14 +7171,14 @@ tr294:
 	addr = nil
 
 //line sip.rl:281
- {goto st270 } 
-	goto st753
-	st753:
+ {goto st268 } 
+	goto st751
+	st751:
 		if p++; p == pe {
-			goto _test_eof753
+			goto _test_eof751
 		}
-	st_case_753:
-//line msg_parse.go:7177
+	st_case_751:
+//line msg_parse.go:7173
 		goto st0
 	st196:
 		if p++; p == pe {
@@ -7375,7 +7371,7 @@ tr294:
 			goto st199
 		}
 		goto st0
-tr311:
+tr309:
 //line sip.rl:206
 {
 	end := p
@@ -7385,7 +7381,7 @@ tr311:
 	addr.Display = string(data[mark:end])
 }
 	goto st210
-tr332:
+tr330:
 //line sip.rl:202
 
 	addr.Display = string(buf[0:amt])
@@ -7396,7 +7392,7 @@ tr332:
 			goto _test_eof210
 		}
 	st_case_210:
-//line msg_parse.go:7391
+//line msg_parse.go:7387
 		if data[p] == 10 {
 			goto st211
 		}
@@ -7433,12 +7429,22 @@ tr272:
 	mark = p
 
 	goto st213
+tr302:
+//line sip.rl:206
+{
+	end := p
+	for end > mark && whitespacec(data[end - 1]) {
+		end--
+	}
+	addr.Display = string(data[mark:end])
+}
+	goto st213
 	st213:
 		if p++; p == pe {
 			goto _test_eof213
 		}
 	st_case_213:
-//line msg_parse.go:7433
+//line msg_parse.go:7439
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7448,19 +7454,21 @@ tr272:
 		}
 		switch _widec {
 		case 9:
-			goto st214
+			goto tr302
 		case 32:
-			goto st214
+			goto tr302
 		case 33:
 			goto st213
 		case 37:
 			goto st213
 		case 39:
 			goto st213
+		case 60:
+			goto tr304
 		case 126:
 			goto st213
 		case 525:
-			goto st215
+			goto tr305
 		}
 		switch {
 		case _widec < 48:
@@ -7500,88 +7508,24 @@ tr305:
 			goto _test_eof214
 		}
 	st_case_214:
-//line msg_parse.go:7495
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto tr305
-		case 32:
-			goto tr305
-		case 33:
-			goto st213
-		case 37:
-			goto st213
-		case 39:
-			goto st213
-		case 60:
-			goto tr306
-		case 126:
-			goto st213
-		case 525:
-			goto tr307
-		}
-		switch {
-		case _widec < 48:
-			switch {
-			case _widec > 43:
-				if 45 <= _widec && _widec <= 46 {
-					goto st213
-				}
-			case _widec >= 42:
-				goto st213
-			}
-		case _widec > 57:
-			switch {
-			case _widec > 90:
-				if 95 <= _widec && _widec <= 122 {
-					goto st213
-				}
-			case _widec >= 65:
-				goto st213
-			}
-		default:
-			goto st213
+//line msg_parse.go:7503
+		if data[p] == 10 {
+			goto st215
 		}
 		goto st0
-tr307:
-//line sip.rl:206
-{
-	end := p
-	for end > mark && whitespacec(data[end - 1]) {
-		end--
-	}
-	addr.Display = string(data[mark:end])
-}
-	goto st215
 	st215:
 		if p++; p == pe {
 			goto _test_eof215
 		}
 	st_case_215:
-//line msg_parse.go:7559
-		if data[p] == 10 {
-			goto st216
-		}
-		goto st0
-	st216:
-		if p++; p == pe {
-			goto _test_eof216
-		}
-	st_case_216:
 		switch data[p] {
 		case 9:
-			goto st217
+			goto st216
 		case 32:
-			goto st217
+			goto st216
 		}
 		goto st0
-tr310:
+tr308:
 //line sip.rl:206
 {
 	end := p
@@ -7590,13 +7534,13 @@ tr310:
 	}
 	addr.Display = string(data[mark:end])
 }
-	goto st217
-	st217:
+	goto st216
+	st216:
 		if p++; p == pe {
-			goto _test_eof217
+			goto _test_eof216
 		}
-	st_case_217:
-//line msg_parse.go:7591
+	st_case_216:
+//line msg_parse.go:7535
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7606,9 +7550,9 @@ tr310:
 		}
 		switch _widec {
 		case 9:
-			goto tr310
+			goto tr308
 		case 32:
-			goto tr310
+			goto tr308
 		case 33:
 			goto st213
 		case 37:
@@ -7616,11 +7560,11 @@ tr310:
 		case 39:
 			goto st213
 		case 60:
-			goto tr306
+			goto tr304
 		case 126:
 			goto st213
 		case 525:
-			goto tr311
+			goto tr309
 		}
 		switch {
 		case _widec < 48:
@@ -7650,13 +7594,13 @@ tr273:
 
 	amt = 0
 
-	goto st218
-	st218:
+	goto st217
+	st217:
 		if p++; p == pe {
-			goto _test_eof218
+			goto _test_eof217
 		}
-	st_case_218:
-//line msg_parse.go:7651
+	st_case_217:
+//line msg_parse.go:7595
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7666,42 +7610,42 @@ tr273:
 		}
 		switch _widec {
 		case 9:
-			goto tr312
+			goto tr310
 		case 34:
-			goto tr313
+			goto tr311
 		case 92:
-			goto tr314
+			goto tr312
 		case 525:
-			goto tr320
+			goto tr318
 		}
 		switch {
 		case _widec < 224:
 			switch {
 			case _widec > 126:
 				if 192 <= _widec && _widec <= 223 {
-					goto tr315
+					goto tr313
 				}
 			case _widec >= 32:
-				goto tr312
+				goto tr310
 			}
 		case _widec > 239:
 			switch {
 			case _widec < 248:
 				if 240 <= _widec && _widec <= 247 {
-					goto tr317
+					goto tr315
 				}
 			case _widec > 251:
 				if 252 <= _widec && _widec <= 253 {
-					goto tr319
+					goto tr317
 				}
 			default:
-				goto tr318
+				goto tr316
 			}
 		default:
-			goto tr316
+			goto tr314
 		}
 		goto st0
-tr312:
+tr310:
 //line sip.rl:88
 
 	amt = 0
@@ -7711,20 +7655,20 @@ tr312:
 	buf[amt] = data[p]
 	amt++
 
-	goto st219
-tr321:
+	goto st218
+tr319:
 //line sip.rl:92
 
 	buf[amt] = data[p]
 	amt++
 
-	goto st219
-	st219:
+	goto st218
+	st218:
 		if p++; p == pe {
-			goto _test_eof219
+			goto _test_eof218
 		}
-	st_case_219:
-//line msg_parse.go:7719
+	st_case_218:
+//line msg_parse.go:7663
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7734,53 +7678,53 @@ tr321:
 		}
 		switch _widec {
 		case 9:
-			goto tr321
+			goto tr319
 		case 34:
-			goto st220
+			goto st219
 		case 92:
-			goto st221
+			goto st220
 		case 525:
-			goto tr329
+			goto tr327
 		}
 		switch {
 		case _widec < 224:
 			switch {
 			case _widec > 126:
 				if 192 <= _widec && _widec <= 223 {
-					goto tr324
+					goto tr322
 				}
 			case _widec >= 32:
-				goto tr321
+				goto tr319
 			}
 		case _widec > 239:
 			switch {
 			case _widec < 248:
 				if 240 <= _widec && _widec <= 247 {
-					goto tr326
+					goto tr324
 				}
 			case _widec > 251:
 				if 252 <= _widec && _widec <= 253 {
-					goto tr328
+					goto tr326
 				}
 			default:
-				goto tr327
+				goto tr325
 			}
 		default:
-			goto tr325
+			goto tr323
 		}
 		goto st0
-tr313:
+tr311:
 //line sip.rl:88
 
 	amt = 0
 
-	goto st220
-	st220:
+	goto st219
+	st219:
 		if p++; p == pe {
-			goto _test_eof220
+			goto _test_eof219
 		}
-	st_case_220:
-//line msg_parse.go:7775
+	st_case_219:
+//line msg_parse.go:7719
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7790,41 +7734,69 @@ tr313:
 		}
 		switch _widec {
 		case 9:
-			goto tr330
+			goto tr328
 		case 32:
-			goto tr330
+			goto tr328
 		case 60:
-			goto tr331
+			goto tr329
 		case 525:
-			goto tr332
+			goto tr330
 		}
 		goto st0
-tr314:
+tr312:
 //line sip.rl:88
 
 	amt = 0
 
-	goto st221
-	st221:
+	goto st220
+	st220:
 		if p++; p == pe {
-			goto _test_eof221
+			goto _test_eof220
 		}
-	st_case_221:
-//line msg_parse.go:7805
+	st_case_220:
+//line msg_parse.go:7749
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
-				goto tr321
+				goto tr319
 			}
 		case data[p] > 12:
 			if 14 <= data[p] && data[p] <= 127 {
-				goto tr321
+				goto tr319
 			}
 		default:
-			goto tr321
+			goto tr319
 		}
 		goto st0
-tr315:
+tr313:
+//line sip.rl:88
+
+	amt = 0
+
+//line sip.rl:92
+
+	buf[amt] = data[p]
+	amt++
+
+	goto st221
+tr322:
+//line sip.rl:92
+
+	buf[amt] = data[p]
+	amt++
+
+	goto st221
+	st221:
+		if p++; p == pe {
+			goto _test_eof221
+		}
+	st_case_221:
+//line msg_parse.go:7786
+		if 128 <= data[p] && data[p] <= 191 {
+			goto tr319
+		}
+		goto st0
+tr314:
 //line sip.rl:88
 
 	amt = 0
@@ -7835,7 +7807,7 @@ tr315:
 	amt++
 
 	goto st222
-tr324:
+tr323:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -7847,12 +7819,12 @@ tr324:
 			goto _test_eof222
 		}
 	st_case_222:
-//line msg_parse.go:7842
+//line msg_parse.go:7814
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr321
+			goto tr322
 		}
 		goto st0
-tr316:
+tr315:
 //line sip.rl:88
 
 	amt = 0
@@ -7863,7 +7835,7 @@ tr316:
 	amt++
 
 	goto st223
-tr325:
+tr324:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -7875,12 +7847,12 @@ tr325:
 			goto _test_eof223
 		}
 	st_case_223:
-//line msg_parse.go:7870
+//line msg_parse.go:7842
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr324
+			goto tr323
 		}
 		goto st0
-tr317:
+tr316:
 //line sip.rl:88
 
 	amt = 0
@@ -7891,7 +7863,7 @@ tr317:
 	amt++
 
 	goto st224
-tr326:
+tr325:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -7903,12 +7875,12 @@ tr326:
 			goto _test_eof224
 		}
 	st_case_224:
-//line msg_parse.go:7898
+//line msg_parse.go:7870
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr325
+			goto tr324
 		}
 		goto st0
-tr318:
+tr317:
 //line sip.rl:88
 
 	amt = 0
@@ -7919,7 +7891,7 @@ tr318:
 	amt++
 
 	goto st225
-tr327:
+tr326:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -7931,12 +7903,12 @@ tr327:
 			goto _test_eof225
 		}
 	st_case_225:
-//line msg_parse.go:7926
+//line msg_parse.go:7898
 		if 128 <= data[p] && data[p] <= 191 {
-			goto tr326
+			goto tr325
 		}
 		goto st0
-tr319:
+tr318:
 //line sip.rl:88
 
 	amt = 0
@@ -7947,7 +7919,7 @@ tr319:
 	amt++
 
 	goto st226
-tr328:
+tr327:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -7959,23 +7931,12 @@ tr328:
 			goto _test_eof226
 		}
 	st_case_226:
-//line msg_parse.go:7954
-		if 128 <= data[p] && data[p] <= 191 {
-			goto tr327
+//line msg_parse.go:7926
+		if data[p] == 10 {
+			goto tr331
 		}
 		goto st0
-tr320:
-//line sip.rl:88
-
-	amt = 0
-
-//line sip.rl:92
-
-	buf[amt] = data[p]
-	amt++
-
-	goto st227
-tr329:
+tr331:
 //line sip.rl:92
 
 	buf[amt] = data[p]
@@ -7987,114 +7948,97 @@ tr329:
 			goto _test_eof227
 		}
 	st_case_227:
-//line msg_parse.go:7982
-		if data[p] == 10 {
-			goto tr333
-		}
-		goto st0
-tr333:
-//line sip.rl:92
-
-	buf[amt] = data[p]
-	amt++
-
-	goto st228
-	st228:
-		if p++; p == pe {
-			goto _test_eof228
-		}
-	st_case_228:
-//line msg_parse.go:7999
+//line msg_parse.go:7943
 		switch data[p] {
 		case 9:
-			goto tr321
+			goto tr319
 		case 32:
-			goto tr321
+			goto tr319
 		}
 		goto st0
-	st229:
+	st228:
 		if p++; p == pe {
-			goto _test_eof229
+			goto _test_eof228
 		}
-	st_case_229:
+	st_case_228:
 		switch {
 		case data[p] > 90:
 			if 97 <= data[p] && data[p] <= 122 {
-				goto st230
+				goto st229
 			}
 		case data[p] >= 65:
-			goto st230
+			goto st229
 		}
 		goto st0
-	st230:
+	st229:
 		if p++; p == pe {
-			goto _test_eof230
+			goto _test_eof229
 		}
-	st_case_230:
+	st_case_229:
 		switch data[p] {
 		case 43:
-			goto st230
+			goto st229
 		case 58:
-			goto st231
+			goto st230
 		}
 		switch {
 		case data[p] < 48:
 			if 45 <= data[p] && data[p] <= 46 {
-				goto st230
+				goto st229
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto st230
+					goto st229
 				}
 			case data[p] >= 65:
-				goto st230
+				goto st229
 			}
 		default:
-			goto st230
+			goto st229
 		}
 		goto st0
-	st231:
+	st230:
 		if p++; p == pe {
-			goto _test_eof231
+			goto _test_eof230
 		}
-	st_case_231:
+	st_case_230:
 		switch data[p] {
 		case 33:
-			goto st232
+			goto st231
 		case 61:
-			goto st232
+			goto st231
 		case 93:
-			goto st232
+			goto st231
 		case 95:
-			goto st232
+			goto st231
 		case 126:
-			goto st232
+			goto st231
 		}
 		switch {
 		case data[p] < 45:
 			if 36 <= data[p] && data[p] <= 43 {
-				goto st232
+				goto st231
 			}
 		case data[p] > 58:
 			switch {
 			case data[p] > 91:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto st232
+					goto st231
 				}
 			case data[p] >= 64:
-				goto st232
+				goto st231
 			}
 		default:
-			goto st232
+			goto st231
 		}
 		goto st0
-	st232:
+	st231:
 		if p++; p == pe {
-			goto _test_eof232
+			goto _test_eof231
 		}
-	st_case_232:
+	st_case_231:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8104,54 +8048,54 @@ tr333:
 		}
 		switch _widec {
 		case 9:
-			goto tr337
+			goto tr335
 		case 32:
-			goto tr337
+			goto tr335
 		case 33:
-			goto st232
+			goto st231
 		case 44:
-			goto tr338
+			goto tr336
 		case 59:
-			goto tr339
+			goto tr337
 		case 61:
-			goto st232
+			goto st231
 		case 93:
-			goto st232
+			goto st231
 		case 95:
-			goto st232
+			goto st231
 		case 126:
-			goto st232
+			goto st231
 		case 269:
-			goto tr340
+			goto tr338
 		case 525:
-			goto tr341
+			goto tr339
 		}
 		switch {
 		case _widec < 64:
 			if 36 <= _widec && _widec <= 58 {
-				goto st232
+				goto st231
 			}
 		case _widec > 91:
 			if 97 <= _widec && _widec <= 122 {
-				goto st232
+				goto st231
 			}
 		default:
-			goto st232
+			goto st231
 		}
 		goto st0
-tr337:
+tr335:
 //line sip.rl:214
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
 
-	goto st233
-	st233:
+	goto st232
+	st232:
 		if p++; p == pe {
-			goto _test_eof233
+			goto _test_eof232
 		}
-	st_case_233:
-//line msg_parse.go:8146
+	st_case_232:
+//line msg_parse.go:8090
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8161,30 +8105,30 @@ tr337:
 		}
 		switch _widec {
 		case 9:
-			goto st233
+			goto st232
 		case 32:
-			goto st233
+			goto st232
 		case 44:
-			goto st234
+			goto st233
 		case 59:
-			goto st238
+			goto st237
 		case 525:
-			goto st242
+			goto st241
 		}
 		goto st0
-tr338:
+tr336:
 //line sip.rl:214
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
 
-	goto st234
-	st234:
+	goto st233
+	st233:
 		if p++; p == pe {
-			goto _test_eof234
+			goto _test_eof233
 		}
-	st_case_234:
-//line msg_parse.go:8179
+	st_case_233:
+//line msg_parse.go:8123
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8194,24 +8138,24 @@ tr338:
 		}
 		switch _widec {
 		case 9:
-			goto st234
+			goto st233
 		case 32:
-			goto st234
+			goto st233
 		case 269:
-			goto tr346
+			goto tr344
 		case 525:
-			goto st235
+			goto st234
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr346
+				goto tr344
 			}
 		default:
-			goto tr346
+			goto tr344
 		}
 		goto st0
-tr346:
+tr344:
 //line sip.rl:223
 
 	*addrp = addr
@@ -8224,9 +8168,9 @@ tr346:
 
 
 //line sip.rl:276
- {goto st246 } 
-	goto st754
-tr350:
+ {goto st245 } 
+	goto st752
+tr348:
 //line sip.rl:72
 
 	p--
@@ -8234,8 +8178,8 @@ tr350:
 
 //line sip.rl:278
  {goto st153 } 
-	goto st754
-tr356:
+	goto st752
+tr354:
 //line sip.rl:223
 
 	*addrp = addr
@@ -8243,61 +8187,61 @@ tr356:
 	addr = nil
 
 //line sip.rl:281
- {goto st270 } 
-	goto st754
-	st754:
+ {goto st268 } 
+	goto st752
+	st752:
 		if p++; p == pe {
-			goto _test_eof754
+			goto _test_eof752
 		}
-	st_case_754:
-//line msg_parse.go:8245
+	st_case_752:
+//line msg_parse.go:8189
 		goto st0
-	st235:
+	st234:
 		if p++; p == pe {
-			goto _test_eof235
+			goto _test_eof234
 		}
-	st_case_235:
+	st_case_234:
 		if data[p] == 10 {
-			goto st236
+			goto st235
 		}
 		goto st0
-	st236:
+	st235:
 		if p++; p == pe {
-			goto _test_eof236
+			goto _test_eof235
 		}
-	st_case_236:
+	st_case_235:
 		switch data[p] {
 		case 9:
-			goto st237
+			goto st236
 		case 32:
-			goto st237
+			goto st236
 		}
 		goto st0
-	st237:
+	st236:
 		if p++; p == pe {
-			goto _test_eof237
+			goto _test_eof236
 		}
-	st_case_237:
+	st_case_236:
 		switch data[p] {
 		case 9:
-			goto st237
+			goto st236
 		case 32:
-			goto st237
+			goto st236
 		}
-		goto tr346
-tr339:
+		goto tr344
+tr337:
 //line sip.rl:214
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
 
-	goto st238
-	st238:
+	goto st237
+	st237:
 		if p++; p == pe {
-			goto _test_eof238
+			goto _test_eof237
 		}
-	st_case_238:
-//line msg_parse.go:8292
+	st_case_237:
+//line msg_parse.go:8236
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8307,227 +8251,176 @@ tr339:
 		}
 		switch _widec {
 		case 9:
-			goto st238
+			goto st237
 		case 32:
-			goto st238
+			goto st237
 		case 269:
-			goto tr350
+			goto tr348
 		case 525:
-			goto st239
+			goto st238
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr350
+				goto tr348
 			}
 		default:
-			goto tr350
+			goto tr348
 		}
 		goto st0
-	st239:
+	st238:
 		if p++; p == pe {
-			goto _test_eof239
+			goto _test_eof238
 		}
-	st_case_239:
+	st_case_238:
 		if data[p] == 10 {
-			goto st240
+			goto st239
 		}
 		goto st0
-	st240:
+	st239:
 		if p++; p == pe {
-			goto _test_eof240
+			goto _test_eof239
 		}
-	st_case_240:
+	st_case_239:
 		switch data[p] {
 		case 9:
-			goto st241
+			goto st240
 		case 32:
-			goto st241
+			goto st240
 		}
 		goto st0
-	st241:
+	st240:
 		if p++; p == pe {
-			goto _test_eof241
+			goto _test_eof240
 		}
-	st_case_241:
+	st_case_240:
 		switch data[p] {
 		case 9:
-			goto st241
+			goto st240
 		case 32:
-			goto st241
+			goto st240
 		}
-		goto tr350
-tr341:
+		goto tr348
+tr339:
 //line sip.rl:214
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
 
-	goto st242
-	st242:
+	goto st241
+	st241:
 		if p++; p == pe {
-			goto _test_eof242
+			goto _test_eof241
 		}
-	st_case_242:
-//line msg_parse.go:8364
+	st_case_241:
+//line msg_parse.go:8308
 		if data[p] == 10 {
-			goto st243
+			goto st242
 		}
 		goto st0
-	st243:
+	st242:
 		if p++; p == pe {
-			goto _test_eof243
+			goto _test_eof242
 		}
-	st_case_243:
+	st_case_242:
 		switch data[p] {
 		case 9:
-			goto st244
+			goto st243
 		case 32:
-			goto st244
+			goto st243
 		}
 		goto st0
-	st244:
+	st243:
 		if p++; p == pe {
-			goto _test_eof244
+			goto _test_eof243
 		}
-	st_case_244:
+	st_case_243:
 		switch data[p] {
 		case 9:
-			goto st244
+			goto st243
 		case 32:
-			goto st244
+			goto st243
 		case 44:
-			goto st234
+			goto st233
 		case 59:
-			goto st238
+			goto st237
 		}
 		goto st0
-tr340:
+tr338:
 //line sip.rl:214
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
 
-	goto st245
-	st245:
+	goto st244
+	st244:
 		if p++; p == pe {
-			goto _test_eof245
+			goto _test_eof244
 		}
-	st_case_245:
-//line msg_parse.go:8409
+	st_case_244:
+//line msg_parse.go:8353
 		if data[p] == 10 {
-			goto tr356
+			goto tr354
 		}
 		goto st0
-	st246:
+	st245:
 		if p++; p == pe {
-			goto _test_eof246
+			goto _test_eof245
 		}
-	st_case_246:
+	st_case_245:
 		switch data[p] {
 		case 33:
-			goto tr357
+			goto tr355
 		case 34:
-			goto tr358
+			goto tr356
 		case 37:
-			goto tr357
+			goto tr355
 		case 39:
-			goto tr357
+			goto tr355
 		case 60:
-			goto tr358
+			goto tr356
 		case 126:
-			goto tr357
+			goto tr355
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr357
+					goto tr355
 				}
 			case data[p] >= 42:
-				goto tr357
+				goto tr355
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] < 95:
 				if 65 <= data[p] && data[p] <= 90 {
-					goto tr359
+					goto tr357
 				}
 			case data[p] > 96:
 				if 97 <= data[p] && data[p] <= 122 {
-					goto tr359
+					goto tr357
 				}
 			default:
-				goto tr357
+				goto tr355
 			}
 		default:
-			goto tr357
+			goto tr355
 		}
 		goto st0
-tr357:
+tr355:
 //line sip.rl:80
 
 	mark = p
 
-	goto st247
-	st247:
-		if p++; p == pe {
-			goto _test_eof247
-		}
-	st_case_247:
-//line msg_parse.go:8471
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st248
-		case 32:
-			goto st248
-		case 33:
-			goto st247
-		case 37:
-			goto st247
-		case 39:
-			goto st247
-		case 126:
-			goto st247
-		case 525:
-			goto st249
-		}
-		switch {
-		case _widec < 48:
-			switch {
-			case _widec > 43:
-				if 45 <= _widec && _widec <= 46 {
-					goto st247
-				}
-			case _widec >= 42:
-				goto st247
-			}
-		case _widec > 57:
-			switch {
-			case _widec > 90:
-				if 95 <= _widec && _widec <= 122 {
-					goto st247
-				}
-			case _widec >= 65:
-				goto st247
-			}
-		default:
-			goto st247
-		}
-		goto st0
-	st248:
+	goto st246
+	st246:
 		if p++; p == pe {
-			goto _test_eof248
+			goto _test_eof246
 		}
-	st_case_248:
+	st_case_246:
+//line msg_parse.go:8415
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8537,46 +8430,46 @@ tr357:
 		}
 		switch _widec {
 		case 9:
-			goto st248
-		case 32:
-			goto st248
-		case 33:
-			goto st247
+			goto st246
 		case 37:
-			goto st247
+			goto st246
 		case 39:
-			goto st247
+			goto st246
 		case 60:
-			goto tr363
+			goto tr359
 		case 126:
-			goto st247
+			goto st246
 		case 525:
-			goto st249
+			goto st247
 		}
 		switch {
-		case _widec < 48:
+		case _widec < 45:
 			switch {
-			case _widec > 43:
-				if 45 <= _widec && _widec <= 46 {
-					goto st247
+			case _widec > 33:
+				if 42 <= _widec && _widec <= 43 {
+					goto st246
 				}
-			case _widec >= 42:
-				goto st247
+			case _widec >= 32:
+				goto st246
 			}
-		case _widec > 57:
+		case _widec > 46:
 			switch {
+			case _widec < 65:
+				if 48 <= _widec && _widec <= 57 {
+					goto st246
+				}
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto st247
+					goto st246
 				}
-			case _widec >= 65:
-				goto st247
+			default:
+				goto st246
 			}
 		default:
-			goto st247
+			goto st246
 		}
 		goto st0
-tr358:
+tr356:
 //line sip.rl:198
 
 	addr = new(Addr)
@@ -8588,8 +8481,8 @@ tr358:
 
 //line sip.rl:277
  {goto st188 } 
-	goto st755
-tr363:
+	goto st753
+tr359:
 //line sip.rl:198
 
 	addr = new(Addr)
@@ -8601,8 +8494,8 @@ tr363:
 
 //line sip.rl:277
  {goto st188 } 
-	goto st755
-tr367:
+	goto st753
+tr364:
 //line sip.rl:198
 
 	addr = new(Addr)
@@ -8613,92 +8506,92 @@ tr367:
 
 
 //line sip.rl:279
- {goto st229 } 
-	goto st755
-	st755:
+ {goto st228 } 
+	goto st753
+	st753:
 		if p++; p == pe {
-			goto _test_eof755
+			goto _test_eof753
 		}
-	st_case_755:
-//line msg_parse.go:8615
+	st_case_753:
+//line msg_parse.go:8508
 		goto st0
-	st249:
+	st247:
 		if p++; p == pe {
-			goto _test_eof249
+			goto _test_eof247
 		}
-	st_case_249:
+	st_case_247:
 		if data[p] == 10 {
-			goto st250
+			goto st248
 		}
 		goto st0
-	st250:
+	st248:
 		if p++; p == pe {
-			goto _test_eof250
+			goto _test_eof248
 		}
-	st_case_250:
+	st_case_248:
 		switch data[p] {
 		case 9:
-			goto st251
+			goto st249
 		case 32:
-			goto st251
+			goto st249
 		}
 		goto st0
-	st251:
+	st249:
 		if p++; p == pe {
-			goto _test_eof251
+			goto _test_eof249
 		}
-	st_case_251:
+	st_case_249:
 		switch data[p] {
 		case 9:
-			goto st251
+			goto st249
 		case 32:
-			goto st251
+			goto st249
 		case 33:
-			goto st247
+			goto st246
 		case 37:
-			goto st247
+			goto st246
 		case 39:
-			goto st247
+			goto st246
 		case 60:
-			goto tr363
+			goto tr359
 		case 126:
-			goto st247
+			goto st246
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto st247
+					goto st246
 				}
 			case data[p] >= 42:
-				goto st247
+				goto st246
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto st247
+					goto st246
 				}
 			case data[p] >= 65:
-				goto st247
+				goto st246
 			}
 		default:
-			goto st247
+			goto st246
 		}
 		goto st0
-tr359:
+tr357:
 //line sip.rl:80
 
 	mark = p
 
-	goto st252
-	st252:
+	goto st250
+	st250:
 		if p++; p == pe {
-			goto _test_eof252
+			goto _test_eof250
 		}
-	st_case_252:
-//line msg_parse.go:8693
+	st_case_250:
+//line msg_parse.go:8586
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8708,54 +8601,56 @@ tr359:
 		}
 		switch _widec {
 		case 9:
-			goto st248
-		case 32:
-			goto st248
-		case 33:
-			goto st247
+			goto st246
 		case 37:
-			goto st247
+			goto st246
 		case 39:
-			goto st247
+			goto st246
 		case 42:
-			goto st247
+			goto st246
 		case 43:
-			goto st252
+			goto st250
 		case 58:
-			goto tr367
+			goto tr364
+		case 60:
+			goto tr359
 		case 126:
-			goto st247
+			goto st246
 		case 525:
-			goto st249
+			goto st247
 		}
 		switch {
-		case _widec < 65:
+		case _widec < 48:
 			switch {
-			case _widec > 46:
-				if 48 <= _widec && _widec <= 57 {
-					goto st252
+			case _widec > 33:
+				if 45 <= _widec && _widec <= 46 {
+					goto st250
 				}
-			case _widec >= 45:
-				goto st252
+			case _widec >= 32:
+				goto st246
 			}
-		case _widec > 90:
+		case _widec > 57:
 			switch {
+			case _widec < 95:
+				if 65 <= _widec && _widec <= 90 {
+					goto st250
+				}
 			case _widec > 96:
 				if 97 <= _widec && _widec <= 122 {
-					goto st252
+					goto st250
 				}
-			case _widec >= 95:
-				goto st247
+			default:
+				goto st246
 			}
 		default:
-			goto st252
+			goto st250
 		}
 		goto st0
-	st253:
+	st251:
 		if p++; p == pe {
-			goto _test_eof253
+			goto _test_eof251
 		}
-	st_case_253:
+	st_case_251:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8765,51 +8660,51 @@ tr359:
 		}
 		switch _widec {
 		case 9:
-			goto tr368
+			goto tr365
 		case 269:
-			goto tr374
+			goto tr371
 		case 525:
-			goto tr375
+			goto tr372
 		}
 		switch {
 		case _widec < 224:
 			switch {
 			case _widec > 127:
 				if 192 <= _widec && _widec <= 223 {
-					goto tr369
+					goto tr366
 				}
 			case _widec >= 32:
-				goto tr368
+				goto tr365
 			}
 		case _widec > 239:
 			switch {
 			case _widec < 248:
 				if 240 <= _widec && _widec <= 247 {
-					goto tr371
+					goto tr368
 				}
 			case _widec > 251:
 				if 252 <= _widec && _widec <= 253 {
-					goto tr373
+					goto tr370
 				}
 			default:
-				goto tr372
+				goto tr369
 			}
 		default:
-			goto tr370
+			goto tr367
 		}
 		goto st0
-tr368:
+tr365:
 //line sip.rl:80
 
 	mark = p
 
-	goto st254
-	st254:
+	goto st252
+	st252:
 		if p++; p == pe {
-			goto _test_eof254
+			goto _test_eof252
 		}
-	st_case_254:
-//line msg_parse.go:8804
+	st_case_252:
+//line msg_parse.go:8699
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8819,136 +8714,136 @@ tr368:
 		}
 		switch _widec {
 		case 9:
-			goto st254
+			goto st252
 		case 269:
-			goto st260
+			goto st258
 		case 525:
-			goto st261
+			goto st259
 		}
 		switch {
 		case _widec < 224:
 			switch {
 			case _widec > 127:
 				if 192 <= _widec && _widec <= 223 {
-					goto st255
+					goto st253
 				}
 			case _widec >= 32:
-				goto st254
+				goto st252
 			}
 		case _widec > 239:
 			switch {
 			case _widec < 248:
 				if 240 <= _widec && _widec <= 247 {
-					goto st257
+					goto st255
 				}
 			case _widec > 251:
 				if 252 <= _widec && _widec <= 253 {
-					goto st259
+					goto st257
 				}
 			default:
-				goto st258
+				goto st256
 			}
 		default:
-			goto st256
+			goto st254
 		}
 		goto st0
-tr369:
+tr366:
 //line sip.rl:80
 
 	mark = p
 
-	goto st255
-	st255:
+	goto st253
+	st253:
 		if p++; p == pe {
-			goto _test_eof255
+			goto _test_eof253
 		}
-	st_case_255:
-//line msg_parse.go:8858
+	st_case_253:
+//line msg_parse.go:8753
 		if 128 <= data[p] && data[p] <= 191 {
-			goto st254
+			goto st252
 		}
 		goto st0
-tr370:
+tr367:
 //line sip.rl:80
 
 	mark = p
 
-	goto st256
-	st256:
+	goto st254
+	st254:
 		if p++; p == pe {
-			goto _test_eof256
+			goto _test_eof254
 		}
-	st_case_256:
-//line msg_parse.go:8874
+	st_case_254:
+//line msg_parse.go:8769
 		if 128 <= data[p] && data[p] <= 191 {
-			goto st255
+			goto st253
 		}
 		goto st0
-tr371:
+tr368:
 //line sip.rl:80
 
 	mark = p
 
-	goto st257
-	st257:
+	goto st255
+	st255:
 		if p++; p == pe {
-			goto _test_eof257
+			goto _test_eof255
 		}
-	st_case_257:
-//line msg_parse.go:8890
+	st_case_255:
+//line msg_parse.go:8785
 		if 128 <= data[p] && data[p] <= 191 {
-			goto st256
+			goto st254
 		}
 		goto st0
-tr372:
+tr369:
 //line sip.rl:80
 
 	mark = p
 
-	goto st258
-	st258:
+	goto st256
+	st256:
 		if p++; p == pe {
-			goto _test_eof258
+			goto _test_eof256
 		}
-	st_case_258:
-//line msg_parse.go:8906
+	st_case_256:
+//line msg_parse.go:8801
 		if 128 <= data[p] && data[p] <= 191 {
-			goto st257
+			goto st255
 		}
 		goto st0
-tr373:
+tr370:
 //line sip.rl:80
 
 	mark = p
 
-	goto st259
-	st259:
+	goto st257
+	st257:
 		if p++; p == pe {
-			goto _test_eof259
+			goto _test_eof257
 		}
-	st_case_259:
-//line msg_parse.go:8922
+	st_case_257:
+//line msg_parse.go:8817
 		if 128 <= data[p] && data[p] <= 191 {
-			goto st258
+			goto st256
 		}
 		goto st0
-tr374:
+tr371:
 //line sip.rl:80
 
 	mark = p
 
-	goto st260
-	st260:
+	goto st258
+	st258:
 		if p++; p == pe {
-			goto _test_eof260
+			goto _test_eof258
 		}
-	st_case_260:
-//line msg_parse.go:8938
+	st_case_258:
+//line msg_parse.go:8833
 		if data[p] == 10 {
-			goto tr384
+			goto tr381
 		}
 		goto st0
-tr384:
+tr381:
 //line sip.rl:189
 {
 	b := data[mark:p - 1]
@@ -8959,158 +8854,158 @@ tr384:
 	}
 }
 //line sip.rl:281
- {goto st270 } 
-	goto st756
-	st756:
+ {goto st268 } 
+	goto st754
+	st754:
 		if p++; p == pe {
-			goto _test_eof756
+			goto _test_eof754
 		}
-	st_case_756:
-//line msg_parse.go:8961
+	st_case_754:
+//line msg_parse.go:8856
 		goto st0
-tr375:
+tr372:
 //line sip.rl:80
 
 	mark = p
 
-	goto st261
-	st261:
+	goto st259
+	st259:
 		if p++; p == pe {
-			goto _test_eof261
+			goto _test_eof259
 		}
-	st_case_261:
-//line msg_parse.go:8974
+	st_case_259:
+//line msg_parse.go:8869
 		if data[p] == 10 {
-			goto st262
+			goto st260
 		}
 		goto st0
-	st262:
+	st260:
 		if p++; p == pe {
-			goto _test_eof262
+			goto _test_eof260
 		}
-	st_case_262:
+	st_case_260:
 		switch data[p] {
 		case 9:
-			goto st254
+			goto st252
 		case 32:
-			goto st254
+			goto st252
 		}
 		goto st0
-	st263:
+	st261:
 		if p++; p == pe {
-			goto _test_eof263
+			goto _test_eof261
 		}
-	st_case_263:
+	st_case_261:
 		switch data[p] {
 		case 33:
-			goto st264
+			goto st262
 		case 37:
-			goto st264
+			goto st262
 		case 39:
-			goto st264
+			goto st262
 		case 126:
-			goto st264
+			goto st262
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto st264
+					goto st262
 				}
 			case data[p] >= 42:
-				goto st264
+				goto st262
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto st264
+					goto st262
 				}
 			case data[p] >= 65:
-				goto st264
+				goto st262
 			}
 		default:
-			goto st264
+			goto st262
 		}
 		goto st0
-	st264:
+	st262:
 		if p++; p == pe {
-			goto _test_eof264
+			goto _test_eof262
 		}
-	st_case_264:
+	st_case_262:
 		switch data[p] {
 		case 9:
-			goto tr387
+			goto tr384
 		case 32:
-			goto tr387
+			goto tr384
 		case 33:
-			goto st264
+			goto st262
 		case 37:
-			goto st264
+			goto st262
 		case 39:
-			goto st264
+			goto st262
 		case 58:
-			goto tr388
+			goto tr385
 		case 126:
-			goto st264
+			goto st262
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto st264
+					goto st262
 				}
 			case data[p] >= 42:
-				goto st264
+				goto st262
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto st264
+					goto st262
 				}
 			case data[p] >= 65:
-				goto st264
+				goto st262
 			}
 		default:
-			goto st264
+			goto st262
 		}
 		goto st0
-tr387:
+tr384:
 //line sip.rl:185
 
 	name = string(data[mark:p])
 
-	goto st265
-	st265:
+	goto st263
+	st263:
 		if p++; p == pe {
-			goto _test_eof265
+			goto _test_eof263
 		}
-	st_case_265:
-//line msg_parse.go:9084
+	st_case_263:
+//line msg_parse.go:8979
 		switch data[p] {
 		case 9:
-			goto st265
+			goto st263
 		case 32:
-			goto st265
+			goto st263
 		case 58:
-			goto st266
+			goto st264
 		}
 		goto st0
-tr388:
+tr385:
 //line sip.rl:185
 
 	name = string(data[mark:p])
 
-	goto st266
-	st266:
+	goto st264
+	st264:
 		if p++; p == pe {
-			goto _test_eof266
+			goto _test_eof264
 		}
-	st_case_266:
-//line msg_parse.go:9105
+	st_case_264:
+//line msg_parse.go:9000
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9120,24 +9015,24 @@ tr388:
 		}
 		switch _widec {
 		case 9:
-			goto st266
+			goto st264
 		case 32:
-			goto st266
+			goto st264
 		case 269:
-			goto tr391
+			goto tr388
 		case 525:
-			goto st267
+			goto st265
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr391
+				goto tr388
 			}
 		default:
-			goto tr391
+			goto tr388
 		}
 		goto st0
-tr391:
+tr388:
 //line sip.rl:556
 value=nil
 //line sip.rl:72
@@ -9146,117 +9041,117 @@ value=nil
 
 
 //line sip.rl:282
- {goto st253 } 
-	goto st757
-	st757:
+ {goto st251 } 
+	goto st755
+	st755:
 		if p++; p == pe {
-			goto _test_eof757
+			goto _test_eof755
 		}
-	st_case_757:
-//line msg_parse.go:9148
+	st_case_755:
+//line msg_parse.go:9043
 		goto st0
-	st267:
+	st265:
 		if p++; p == pe {
-			goto _test_eof267
+			goto _test_eof265
 		}
-	st_case_267:
+	st_case_265:
 		if data[p] == 10 {
-			goto st268
+			goto st266
 		}
 		goto st0
-	st268:
+	st266:
 		if p++; p == pe {
-			goto _test_eof268
+			goto _test_eof266
 		}
-	st_case_268:
+	st_case_266:
 		switch data[p] {
 		case 9:
-			goto st269
+			goto st267
 		case 32:
-			goto st269
+			goto st267
 		}
 		goto st0
-	st269:
+	st267:
 		if p++; p == pe {
-			goto _test_eof269
+			goto _test_eof267
 		}
-	st_case_269:
+	st_case_267:
 		switch data[p] {
 		case 9:
-			goto st269
+			goto st267
 		case 32:
-			goto st269
+			goto st267
 		}
-		goto tr391
-	st270:
+		goto tr388
+	st268:
 		if p++; p == pe {
-			goto _test_eof270
+			goto _test_eof268
 		}
-	st_case_270:
+	st_case_268:
 		switch data[p] {
 		case 13:
-			goto st271
+			goto st269
 		case 33:
-			goto tr396
+			goto tr393
 		case 37:
-			goto tr396
+			goto tr393
 		case 39:
-			goto tr396
+			goto tr393
 		case 126:
-			goto tr396
+			goto tr393
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr396
+					goto tr393
 				}
 			case data[p] >= 42:
-				goto tr396
+				goto tr393
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr396
+					goto tr393
 				}
 			case data[p] >= 65:
-				goto tr396
+				goto tr393
 			}
 		default:
-			goto tr396
+			goto tr393
 		}
 		goto st0
-	st271:
+	st269:
 		if p++; p == pe {
-			goto _test_eof271
+			goto _test_eof269
 		}
-	st_case_271:
+	st_case_269:
 		if data[p] == 10 {
-			goto tr397
+			goto tr394
 		}
 		goto st0
-tr541:
+tr538:
 //line sip.rl:281
- {goto st270 } 
-	goto st758
-tr397:
+ {goto st268 } 
+	goto st756
+tr394:
 //line sip.rl:76
 
-	{p++; cs = 758; goto _out }
+	{p++; cs = 756; goto _out }
 
-	goto st758
-tr424:
+	goto st756
+tr421:
 //line sip.rl:72
 
 	p--
 
 
 //line sip.rl:282
- {goto st253 } 
-	goto st758
-tr523:
+ {goto st251 } 
+	goto st756
+tr520:
 //line sip.rl:72
 
 	p--
@@ -9264,8 +9159,8 @@ tr523:
 
 //line sip.rl:280
  {goto st34 } 
-	goto st758
-tr558:
+	goto st756
+tr555:
 //line sip.rl:558
 value=nil
 //line sip.rl:72
@@ -9274,9 +9169,9 @@ value=nil
 
 
 //line sip.rl:276
- {goto st246 } 
-	goto st758
-tr945:
+ {goto st245 } 
+	goto st756
+tr942:
 //line sip.rl:143
 
 	via = new(Via)
@@ -9288,15 +9183,15 @@ tr945:
 
 //line sip.rl:283
  {goto st103 } 
-	goto st758
-	st758:
+	goto st756
+	st756:
 		if p++; p == pe {
-			goto _test_eof758
+			goto _test_eof756
 		}
-	st_case_758:
-//line msg_parse.go:9289
+	st_case_756:
+//line msg_parse.go:9184
 		goto st0
-tr396:
+tr393:
 //line sip.rl:80
 
 	mark = p
@@ -9306,435 +9201,435 @@ tr396:
 	p--
 
 
-	goto st272
-	st272:
+	goto st270
+	st270:
 		if p++; p == pe {
-			goto _test_eof272
+			goto _test_eof270
 		}
-	st_case_272:
-//line msg_parse.go:9307
+	st_case_270:
+//line msg_parse.go:9202
 		switch data[p] {
 		case 65:
-			goto st273
+			goto st271
 		case 66:
-			goto st354
+			goto st352
 		case 67:
-			goto st355
+			goto st353
 		case 68:
-			goto st450
+			goto st448
 		case 69:
-			goto st454
+			goto st452
 		case 70:
-			goto st480
+			goto st478
 		case 73:
-			goto st484
+			goto st482
 		case 75:
-			goto st495
+			goto st493
 		case 76:
-			goto st425
+			goto st423
 		case 77:
-			goto st496
+			goto st494
 		case 79:
-			goto st540
+			goto st538
 		case 80:
-			goto st552
+			goto st550
 		case 82:
-			goto st610
+			goto st608
 		case 83:
-			goto st670
+			goto st668
 		case 84:
-			goto st688
+			goto st686
 		case 85:
-			goto st698
+			goto st696
 		case 86:
-			goto st718
+			goto st716
 		case 87:
-			goto st726
+			goto st724
 		case 97:
-			goto st273
+			goto st271
 		case 98:
-			goto st354
+			goto st352
 		case 99:
-			goto st355
+			goto st353
 		case 100:
-			goto st450
+			goto st448
 		case 101:
-			goto st454
+			goto st452
 		case 102:
-			goto st480
+			goto st478
 		case 105:
-			goto st484
+			goto st482
 		case 107:
-			goto st495
+			goto st493
 		case 108:
-			goto st425
+			goto st423
 		case 109:
-			goto st496
+			goto st494
 		case 111:
-			goto st540
+			goto st538
 		case 112:
-			goto st552
+			goto st550
 		case 114:
-			goto st610
+			goto st608
 		case 115:
-			goto st670
+			goto st668
 		case 116:
-			goto st688
+			goto st686
 		case 117:
-			goto st698
+			goto st696
 		case 118:
-			goto st718
+			goto st716
 		case 119:
-			goto st726
+			goto st724
 		}
-		goto tr398
-	st273:
+		goto tr395
+	st271:
 		if p++; p == pe {
-			goto _test_eof273
+			goto _test_eof271
 		}
-	st_case_273:
+	st_case_271:
 		switch data[p] {
 		case 9:
-			goto tr417
+			goto tr414
 		case 32:
-			goto tr417
+			goto tr414
 		case 58:
-			goto tr418
+			goto tr415
 		case 67:
-			goto st279
+			goto st277
 		case 76:
-			goto st308
+			goto st306
 		case 85:
-			goto st327
+			goto st325
 		case 99:
-			goto st279
+			goto st277
 		case 108:
-			goto st308
+			goto st306
 		case 117:
-			goto st327
+			goto st325
 		}
-		goto tr398
-tr417:
+		goto tr395
+tr414:
 //line sip.rl:475
 value=&msg.AcceptContact
-	goto st274
-tr432:
+	goto st272
+tr429:
 //line sip.rl:474
 value=&msg.Accept
-	goto st274
-tr451:
+	goto st272
+tr448:
 //line sip.rl:476
 value=&msg.AcceptEncoding
-	goto st274
-tr460:
+	goto st272
+tr457:
 //line sip.rl:477
 value=&msg.AcceptLanguage
-	goto st274
-tr471:
+	goto st272
+tr468:
 //line sip.rl:480
 value=&msg.AlertInfo
-	goto st274
-tr475:
+	goto st272
+tr472:
 //line sip.rl:478
 value=&msg.Allow
-	goto st274
-tr484:
+	goto st272
+tr481:
 //line sip.rl:479
 value=&msg.AllowEvents
-	goto st274
-tr504:
+	goto st272
+tr501:
 //line sip.rl:481
 value=&msg.AuthenticationInfo
-	goto st274
-tr514:
+	goto st272
+tr511:
 //line sip.rl:482
 value=&msg.Authorization
-	goto st274
-tr516:
+	goto st272
+tr513:
 //line sip.rl:499
 value=&msg.ReferredBy
-	goto st274
-tr546:
+	goto st272
+tr543:
 //line sip.rl:486
 value=&msg.CallInfo
-	goto st274
-tr579:
+	goto st272
+tr576:
 //line sip.rl:483
 value=&msg.ContentDisposition
-	goto st274
-tr588:
+	goto st272
+tr585:
 //line sip.rl:485
 value=&msg.ContentEncoding
-	goto st274
-tr598:
+	goto st272
+tr595:
 //line sip.rl:484
 value=&msg.ContentLanguage
-	goto st274
-tr632:
+	goto st272
+tr629:
 //line sip.rl:487
 value=&msg.Date
-	goto st274
-tr645:
+	goto st272
+tr642:
 //line sip.rl:488
 value=&msg.ErrorInfo
-	goto st274
-tr650:
+	goto st272
+tr647:
 //line sip.rl:489
 value=&msg.Event
-	goto st274
-tr679:
+	goto st272
+tr676:
 //line sip.rl:490
 value=&msg.InReplyTo
-	goto st274
-tr681:
+	goto st272
+tr678:
 //line sip.rl:504
 value=&msg.Supported
-	goto st274
-tr713:
+	goto st272
+tr710:
 //line sip.rl:492
 value=&msg.MIMEVersion
-	goto st274
-tr741:
+	goto st272
+tr738:
 //line sip.rl:493
 value=&msg.Organization
-	goto st274
-tr771:
+	goto st272
+tr768:
 //line sip.rl:494
 value=&msg.Priority
-	goto st274
-tr790:
+	goto st272
+tr787:
 //line sip.rl:495
 value=&msg.ProxyAuthenticate
-	goto st274
-tr800:
+	goto st272
+tr797:
 //line sip.rl:496
 value=&msg.ProxyAuthorization
-	goto st274
-tr808:
+	goto st272
+tr805:
 //line sip.rl:497
 value=&msg.ProxyRequire
-	goto st274
-tr810:
+	goto st272
+tr807:
 //line sip.rl:498
 value=&msg.ReferTo
-	goto st274
-tr860:
+	goto st272
+tr857:
 //line sip.rl:491
 value=&msg.ReplyTo
-	goto st274
-tr866:
+	goto st272
+tr863:
 //line sip.rl:500
 value=&msg.Require
-	goto st274
-tr876:
+	goto st272
+tr873:
 //line sip.rl:501
 value=&msg.RetryAfter
-	goto st274
-tr883:
+	goto st272
+tr880:
 //line sip.rl:503
 value=&msg.Subject
-	goto st274
-tr891:
+	goto st272
+tr888:
 //line sip.rl:502
 value=&msg.Server
-	goto st274
-tr915:
+	goto st272
+tr912:
 //line sip.rl:505
 value=&msg.Timestamp
-	goto st274
-tr917:
+	goto st272
+tr914:
 //line sip.rl:478
 value=&msg.Allow
 //line sip.rl:479
 value=&msg.AllowEvents
-	goto st274
-tr930:
+	goto st272
+tr927:
 //line sip.rl:506
 value=&msg.Unsupported
-	goto st274
-tr940:
+	goto st272
+tr937:
 //line sip.rl:507
 value=&msg.UserAgent
-	goto st274
-tr957:
+	goto st272
+tr954:
 //line sip.rl:508
 value=&msg.Warning
-	goto st274
-tr973:
+	goto st272
+tr970:
 //line sip.rl:509
 value=&msg.WWWAuthenticate
-	goto st274
-	st274:
+	goto st272
+	st272:
 		if p++; p == pe {
-			goto _test_eof274
+			goto _test_eof272
 		}
-	st_case_274:
-//line msg_parse.go:9564
+	st_case_272:
+//line msg_parse.go:9459
 		switch data[p] {
 		case 9:
-			goto st274
+			goto st272
 		case 32:
-			goto st274
+			goto st272
 		case 58:
-			goto st275
+			goto st273
 		}
 		goto st0
-tr418:
+tr415:
 //line sip.rl:475
 value=&msg.AcceptContact
-	goto st275
-tr434:
+	goto st273
+tr431:
 //line sip.rl:474
 value=&msg.Accept
-	goto st275
-tr452:
+	goto st273
+tr449:
 //line sip.rl:476
 value=&msg.AcceptEncoding
-	goto st275
-tr461:
+	goto st273
+tr458:
 //line sip.rl:477
 value=&msg.AcceptLanguage
-	goto st275
-tr472:
+	goto st273
+tr469:
 //line sip.rl:480
 value=&msg.AlertInfo
-	goto st275
-tr477:
+	goto st273
+tr474:
 //line sip.rl:478
 value=&msg.Allow
-	goto st275
-tr485:
+	goto st273
+tr482:
 //line sip.rl:479
 value=&msg.AllowEvents
-	goto st275
-tr505:
+	goto st273
+tr502:
 //line sip.rl:481
 value=&msg.AuthenticationInfo
-	goto st275
-tr515:
+	goto st273
+tr512:
 //line sip.rl:482
 value=&msg.Authorization
-	goto st275
-tr517:
+	goto st273
+tr514:
 //line sip.rl:499
 value=&msg.ReferredBy
-	goto st275
-tr547:
+	goto st273
+tr544:
 //line sip.rl:486
 value=&msg.CallInfo
-	goto st275
-tr580:
+	goto st273
+tr577:
 //line sip.rl:483
 value=&msg.ContentDisposition
-	goto st275
-tr589:
+	goto st273
+tr586:
 //line sip.rl:485
 value=&msg.ContentEncoding
-	goto st275
-tr599:
+	goto st273
+tr596:
 //line sip.rl:484
 value=&msg.ContentLanguage
-	goto st275
-tr633:
+	goto st273
+tr630:
 //line sip.rl:487
 value=&msg.Date
-	goto st275
-tr646:
+	goto st273
+tr643:
 //line sip.rl:488
 value=&msg.ErrorInfo
-	goto st275
-tr651:
+	goto st273
+tr648:
 //line sip.rl:489
 value=&msg.Event
-	goto st275
-tr680:
+	goto st273
+tr677:
 //line sip.rl:490
 value=&msg.InReplyTo
-	goto st275
-tr682:
+	goto st273
+tr679:
 //line sip.rl:504
 value=&msg.Supported
-	goto st275
-tr714:
+	goto st273
+tr711:
 //line sip.rl:492
 value=&msg.MIMEVersion
-	goto st275
-tr742:
+	goto st273
+tr739:
 //line sip.rl:493
 value=&msg.Organization
-	goto st275
-tr772:
+	goto st273
+tr769:
 //line sip.rl:494
 value=&msg.Priority
-	goto st275
-tr791:
+	goto st273
+tr788:
 //line sip.rl:495
 value=&msg.ProxyAuthenticate
-	goto st275
-tr801:
+	goto st273
+tr798:
 //line sip.rl:496
 value=&msg.ProxyAuthorization
-	goto st275
-tr809:
+	goto st273
+tr806:
 //line sip.rl:497
 value=&msg.ProxyRequire
-	goto st275
-tr811:
+	goto st273
+tr808:
 //line sip.rl:498
 value=&msg.ReferTo
-	goto st275
-tr861:
+	goto st273
+tr858:
 //line sip.rl:491
 value=&msg.ReplyTo
-	goto st275
-tr867:
+	goto st273
+tr864:
 //line sip.rl:500
 value=&msg.Require
-	goto st275
-tr877:
+	goto st273
+tr874:
 //line sip.rl:501
 value=&msg.RetryAfter
-	goto st275
-tr884:
+	goto st273
+tr881:
 //line sip.rl:503
 value=&msg.Subject
-	goto st275
-tr892:
+	goto st273
+tr889:
 //line sip.rl:502
 value=&msg.Server
-	goto st275
-tr916:
+	goto st273
+tr913:
 //line sip.rl:505
 value=&msg.Timestamp
-	goto st275
-tr918:
+	goto st273
+tr915:
 //line sip.rl:478
 value=&msg.Allow
 //line sip.rl:479
 value=&msg.AllowEvents
-	goto st275
-tr931:
+	goto st273
+tr928:
 //line sip.rl:506
 value=&msg.Unsupported
-	goto st275
-tr941:
+	goto st273
+tr938:
 //line sip.rl:507
 value=&msg.UserAgent
-	goto st275
-tr958:
+	goto st273
+tr955:
 //line sip.rl:508
 value=&msg.Warning
-	goto st275
-tr974:
+	goto st273
+tr971:
 //line sip.rl:509
 value=&msg.WWWAuthenticate
-	goto st275
-	st275:
+	goto st273
+	st273:
 		if p++; p == pe {
-			goto _test_eof275
+			goto _test_eof273
 		}
-	st_case_275:
-//line msg_parse.go:9729
+	st_case_273:
+//line msg_parse.go:9624
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9744,21 +9639,42 @@ value=&msg.WWWAuthenticate
 		}
 		switch _widec {
 		case 9:
-			goto st275
+			goto st273
 		case 32:
-			goto st275
+			goto st273
 		case 269:
-			goto tr424
+			goto tr421
 		case 525:
-			goto st276
+			goto st274
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr424
+				goto tr421
 			}
 		default:
-			goto tr424
+			goto tr421
+		}
+		goto st0
+	st274:
+		if p++; p == pe {
+			goto _test_eof274
+		}
+	st_case_274:
+		if data[p] == 10 {
+			goto st275
+		}
+		goto st0
+	st275:
+		if p++; p == pe {
+			goto _test_eof275
+		}
+	st_case_275:
+		switch data[p] {
+		case 9:
+			goto st276
+		case 32:
+			goto st276
 		}
 		goto st0
 	st276:
@@ -9766,374 +9682,379 @@ value=&msg.WWWAuthenticate
 			goto _test_eof276
 		}
 	st_case_276:
-		if data[p] == 10 {
-			goto st277
+		switch data[p] {
+		case 9:
+			goto st276
+		case 32:
+			goto st276
 		}
-		goto st0
+		goto tr421
 	st277:
 		if p++; p == pe {
 			goto _test_eof277
 		}
 	st_case_277:
 		switch data[p] {
-		case 9:
+		case 67:
 			goto st278
-		case 32:
+		case 99:
 			goto st278
 		}
-		goto st0
+		goto tr395
 	st278:
 		if p++; p == pe {
 			goto _test_eof278
 		}
 	st_case_278:
 		switch data[p] {
-		case 9:
-			goto st278
-		case 32:
-			goto st278
+		case 69:
+			goto st279
+		case 101:
+			goto st279
 		}
-		goto tr424
+		goto tr395
 	st279:
 		if p++; p == pe {
 			goto _test_eof279
 		}
 	st_case_279:
 		switch data[p] {
-		case 67:
+		case 80:
 			goto st280
-		case 99:
+		case 112:
 			goto st280
 		}
-		goto tr398
+		goto tr395
 	st280:
 		if p++; p == pe {
 			goto _test_eof280
 		}
 	st_case_280:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st281
-		case 101:
+		case 116:
 			goto st281
 		}
-		goto tr398
+		goto tr395
 	st281:
 		if p++; p == pe {
 			goto _test_eof281
 		}
 	st_case_281:
 		switch data[p] {
-		case 80:
-			goto st282
-		case 112:
+		case 9:
+			goto tr429
+		case 32:
+			goto tr429
+		case 45:
 			goto st282
+		case 58:
+			goto tr431
 		}
-		goto tr398
+		goto tr395
 	st282:
 		if p++; p == pe {
 			goto _test_eof282
 		}
 	st_case_282:
 		switch data[p] {
-		case 84:
+		case 67:
 			goto st283
-		case 116:
+		case 69:
+			goto st290
+		case 76:
+			goto st298
+		case 99:
 			goto st283
+		case 101:
+			goto st290
+		case 108:
+			goto st298
 		}
-		goto tr398
+		goto tr395
 	st283:
 		if p++; p == pe {
 			goto _test_eof283
 		}
 	st_case_283:
 		switch data[p] {
-		case 9:
-			goto tr432
-		case 32:
-			goto tr432
-		case 45:
+		case 79:
+			goto st284
+		case 111:
 			goto st284
-		case 58:
-			goto tr434
 		}
-		goto tr398
+		goto tr395
 	st284:
 		if p++; p == pe {
 			goto _test_eof284
 		}
 	st_case_284:
 		switch data[p] {
-		case 67:
+		case 78:
 			goto st285
-		case 69:
-			goto st292
-		case 76:
-			goto st300
-		case 99:
+		case 110:
 			goto st285
-		case 101:
-			goto st292
-		case 108:
-			goto st300
 		}
-		goto tr398
+		goto tr395
 	st285:
 		if p++; p == pe {
 			goto _test_eof285
 		}
 	st_case_285:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st286
-		case 111:
+		case 116:
 			goto st286
 		}
-		goto tr398
+		goto tr395
 	st286:
 		if p++; p == pe {
 			goto _test_eof286
 		}
 	st_case_286:
 		switch data[p] {
-		case 78:
+		case 65:
 			goto st287
-		case 110:
+		case 97:
 			goto st287
 		}
-		goto tr398
+		goto tr395
 	st287:
 		if p++; p == pe {
 			goto _test_eof287
 		}
 	st_case_287:
 		switch data[p] {
-		case 84:
+		case 67:
 			goto st288
-		case 116:
+		case 99:
 			goto st288
 		}
-		goto tr398
+		goto tr395
 	st288:
 		if p++; p == pe {
 			goto _test_eof288
 		}
 	st_case_288:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st289
-		case 97:
+		case 116:
 			goto st289
 		}
-		goto tr398
+		goto tr395
 	st289:
 		if p++; p == pe {
 			goto _test_eof289
 		}
 	st_case_289:
 		switch data[p] {
-		case 67:
-			goto st290
-		case 99:
-			goto st290
+		case 9:
+			goto tr414
+		case 32:
+			goto tr414
+		case 58:
+			goto tr415
 		}
-		goto tr398
+		goto tr395
 	st290:
 		if p++; p == pe {
 			goto _test_eof290
 		}
 	st_case_290:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st291
-		case 116:
+		case 110:
 			goto st291
 		}
-		goto tr398
+		goto tr395
 	st291:
 		if p++; p == pe {
 			goto _test_eof291
 		}
 	st_case_291:
 		switch data[p] {
-		case 9:
-			goto tr417
-		case 32:
-			goto tr417
-		case 58:
-			goto tr418
+		case 67:
+			goto st292
+		case 99:
+			goto st292
 		}
-		goto tr398
+		goto tr395
 	st292:
 		if p++; p == pe {
 			goto _test_eof292
 		}
 	st_case_292:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st293
-		case 110:
+		case 111:
 			goto st293
 		}
-		goto tr398
+		goto tr395
 	st293:
 		if p++; p == pe {
 			goto _test_eof293
 		}
 	st_case_293:
 		switch data[p] {
-		case 67:
+		case 68:
 			goto st294
-		case 99:
+		case 100:
 			goto st294
 		}
-		goto tr398
+		goto tr395
 	st294:
 		if p++; p == pe {
 			goto _test_eof294
 		}
 	st_case_294:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st295
-		case 111:
+		case 105:
 			goto st295
 		}
-		goto tr398
+		goto tr395
 	st295:
 		if p++; p == pe {
 			goto _test_eof295
 		}
 	st_case_295:
 		switch data[p] {
-		case 68:
+		case 78:
 			goto st296
-		case 100:
+		case 110:
 			goto st296
 		}
-		goto tr398
+		goto tr395
 	st296:
 		if p++; p == pe {
 			goto _test_eof296
 		}
 	st_case_296:
 		switch data[p] {
-		case 73:
+		case 71:
 			goto st297
-		case 105:
+		case 103:
 			goto st297
 		}
-		goto tr398
+		goto tr395
 	st297:
 		if p++; p == pe {
 			goto _test_eof297
 		}
 	st_case_297:
 		switch data[p] {
-		case 78:
-			goto st298
-		case 110:
-			goto st298
+		case 9:
+			goto tr448
+		case 32:
+			goto tr448
+		case 58:
+			goto tr449
 		}
-		goto tr398
+		goto tr395
 	st298:
 		if p++; p == pe {
 			goto _test_eof298
 		}
 	st_case_298:
 		switch data[p] {
-		case 71:
+		case 65:
 			goto st299
-		case 103:
+		case 97:
 			goto st299
 		}
-		goto tr398
+		goto tr395
 	st299:
 		if p++; p == pe {
 			goto _test_eof299
 		}
 	st_case_299:
 		switch data[p] {
-		case 9:
-			goto tr451
-		case 32:
-			goto tr451
-		case 58:
-			goto tr452
+		case 78:
+			goto st300
+		case 110:
+			goto st300
 		}
-		goto tr398
+		goto tr395
 	st300:
 		if p++; p == pe {
 			goto _test_eof300
 		}
 	st_case_300:
 		switch data[p] {
-		case 65:
+		case 71:
 			goto st301
-		case 97:
+		case 103:
 			goto st301
 		}
-		goto tr398
+		goto tr395
 	st301:
 		if p++; p == pe {
 			goto _test_eof301
 		}
 	st_case_301:
 		switch data[p] {
-		case 78:
+		case 85:
 			goto st302
-		case 110:
+		case 117:
 			goto st302
 		}
-		goto tr398
+		goto tr395
 	st302:
 		if p++; p == pe {
 			goto _test_eof302
 		}
 	st_case_302:
 		switch data[p] {
-		case 71:
+		case 65:
 			goto st303
-		case 103:
+		case 97:
 			goto st303
 		}
-		goto tr398
+		goto tr395
 	st303:
 		if p++; p == pe {
 			goto _test_eof303
 		}
 	st_case_303:
 		switch data[p] {
-		case 85:
+		case 71:
 			goto st304
-		case 117:
+		case 103:
 			goto st304
 		}
-		goto tr398
+		goto tr395
 	st304:
 		if p++; p == pe {
 			goto _test_eof304
 		}
 	st_case_304:
 		switch data[p] {
-		case 65:
+		case 69:
 			goto st305
-		case 97:
+		case 101:
 			goto st305
 		}
-		goto tr398
+		goto tr395
 	st305:
 		if p++; p == pe {
 			goto _test_eof305
 		}
 	st_case_305:
 		switch data[p] {
-		case 71:
-			goto st306
-		case 103:
-			goto st306
+		case 9:
+			goto tr457
+		case 32:
+			goto tr457
+		case 58:
+			goto tr458
 		}
-		goto tr398
+		goto tr395
 	st306:
 		if p++; p == pe {
 			goto _test_eof306
@@ -10142,109 +10063,109 @@ value=&msg.WWWAuthenticate
 		switch data[p] {
 		case 69:
 			goto st307
+		case 76:
+			goto st315
 		case 101:
 			goto st307
+		case 108:
+			goto st315
 		}
-		goto tr398
+		goto tr395
 	st307:
 		if p++; p == pe {
 			goto _test_eof307
 		}
 	st_case_307:
 		switch data[p] {
-		case 9:
-			goto tr460
-		case 32:
-			goto tr460
-		case 58:
-			goto tr461
+		case 82:
+			goto st308
+		case 114:
+			goto st308
 		}
-		goto tr398
+		goto tr395
 	st308:
 		if p++; p == pe {
 			goto _test_eof308
 		}
 	st_case_308:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st309
-		case 76:
-			goto st317
-		case 101:
+		case 116:
 			goto st309
-		case 108:
-			goto st317
 		}
-		goto tr398
+		goto tr395
 	st309:
 		if p++; p == pe {
 			goto _test_eof309
 		}
 	st_case_309:
-		switch data[p] {
-		case 82:
-			goto st310
-		case 114:
+		if data[p] == 45 {
 			goto st310
 		}
-		goto tr398
+		goto tr395
 	st310:
 		if p++; p == pe {
 			goto _test_eof310
 		}
 	st_case_310:
 		switch data[p] {
-		case 84:
+		case 73:
 			goto st311
-		case 116:
+		case 105:
 			goto st311
 		}
-		goto tr398
+		goto tr395
 	st311:
 		if p++; p == pe {
 			goto _test_eof311
 		}
 	st_case_311:
-		if data[p] == 45 {
+		switch data[p] {
+		case 78:
+			goto st312
+		case 110:
 			goto st312
 		}
-		goto tr398
+		goto tr395
 	st312:
 		if p++; p == pe {
 			goto _test_eof312
 		}
 	st_case_312:
 		switch data[p] {
-		case 73:
+		case 70:
 			goto st313
-		case 105:
+		case 102:
 			goto st313
 		}
-		goto tr398
+		goto tr395
 	st313:
 		if p++; p == pe {
 			goto _test_eof313
 		}
 	st_case_313:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st314
-		case 110:
+		case 111:
 			goto st314
 		}
-		goto tr398
+		goto tr395
 	st314:
 		if p++; p == pe {
 			goto _test_eof314
 		}
 	st_case_314:
 		switch data[p] {
-		case 70:
-			goto st315
-		case 102:
-			goto st315
+		case 9:
+			goto tr468
+		case 32:
+			goto tr468
+		case 58:
+			goto tr469
 		}
-		goto tr398
+		goto tr395
 	st315:
 		if p++; p == pe {
 			goto _test_eof315
@@ -10256,61 +10177,59 @@ value=&msg.WWWAuthenticate
 		case 111:
 			goto st316
 		}
-		goto tr398
+		goto tr395
 	st316:
 		if p++; p == pe {
 			goto _test_eof316
 		}
 	st_case_316:
 		switch data[p] {
-		case 9:
-			goto tr471
-		case 32:
-			goto tr471
-		case 58:
-			goto tr472
+		case 87:
+			goto st317
+		case 119:
+			goto st317
 		}
-		goto tr398
+		goto tr395
 	st317:
 		if p++; p == pe {
 			goto _test_eof317
 		}
 	st_case_317:
 		switch data[p] {
-		case 79:
-			goto st318
-		case 111:
+		case 9:
+			goto tr472
+		case 32:
+			goto tr472
+		case 45:
 			goto st318
+		case 58:
+			goto tr474
 		}
-		goto tr398
+		goto tr395
 	st318:
 		if p++; p == pe {
 			goto _test_eof318
 		}
 	st_case_318:
 		switch data[p] {
-		case 87:
+		case 69:
 			goto st319
-		case 119:
+		case 101:
 			goto st319
 		}
-		goto tr398
+		goto tr395
 	st319:
 		if p++; p == pe {
 			goto _test_eof319
 		}
 	st_case_319:
 		switch data[p] {
-		case 9:
-			goto tr475
-		case 32:
-			goto tr475
-		case 45:
+		case 86:
+			goto st320
+		case 118:
 			goto st320
-		case 58:
-			goto tr477
 		}
-		goto tr398
+		goto tr395
 	st320:
 		if p++; p == pe {
 			goto _test_eof320
@@ -10322,396 +10241,400 @@ value=&msg.WWWAuthenticate
 		case 101:
 			goto st321
 		}
-		goto tr398
+		goto tr395
 	st321:
 		if p++; p == pe {
 			goto _test_eof321
 		}
 	st_case_321:
 		switch data[p] {
-		case 86:
+		case 78:
 			goto st322
-		case 118:
+		case 110:
 			goto st322
 		}
-		goto tr398
+		goto tr395
 	st322:
 		if p++; p == pe {
 			goto _test_eof322
 		}
 	st_case_322:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st323
-		case 101:
+		case 116:
 			goto st323
 		}
-		goto tr398
+		goto tr395
 	st323:
 		if p++; p == pe {
 			goto _test_eof323
 		}
 	st_case_323:
 		switch data[p] {
-		case 78:
+		case 83:
 			goto st324
-		case 110:
+		case 115:
 			goto st324
 		}
-		goto tr398
+		goto tr395
 	st324:
 		if p++; p == pe {
 			goto _test_eof324
 		}
 	st_case_324:
 		switch data[p] {
-		case 84:
-			goto st325
-		case 116:
-			goto st325
+		case 9:
+			goto tr481
+		case 32:
+			goto tr481
+		case 58:
+			goto tr482
 		}
-		goto tr398
+		goto tr395
 	st325:
 		if p++; p == pe {
 			goto _test_eof325
 		}
 	st_case_325:
 		switch data[p] {
-		case 83:
+		case 84:
 			goto st326
-		case 115:
+		case 116:
 			goto st326
 		}
-		goto tr398
+		goto tr395
 	st326:
 		if p++; p == pe {
 			goto _test_eof326
 		}
 	st_case_326:
 		switch data[p] {
-		case 9:
-			goto tr484
-		case 32:
-			goto tr484
-		case 58:
-			goto tr485
+		case 72:
+			goto st327
+		case 104:
+			goto st327
 		}
-		goto tr398
+		goto tr395
 	st327:
 		if p++; p == pe {
 			goto _test_eof327
 		}
 	st_case_327:
 		switch data[p] {
-		case 84:
+		case 69:
 			goto st328
-		case 116:
+		case 79:
+			goto st343
+		case 101:
 			goto st328
+		case 111:
+			goto st343
 		}
-		goto tr398
+		goto tr395
 	st328:
 		if p++; p == pe {
 			goto _test_eof328
 		}
 	st_case_328:
 		switch data[p] {
-		case 72:
+		case 78:
 			goto st329
-		case 104:
+		case 110:
 			goto st329
 		}
-		goto tr398
+		goto tr395
 	st329:
 		if p++; p == pe {
 			goto _test_eof329
 		}
 	st_case_329:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st330
-		case 79:
-			goto st345
-		case 101:
+		case 116:
 			goto st330
-		case 111:
-			goto st345
 		}
-		goto tr398
+		goto tr395
 	st330:
 		if p++; p == pe {
 			goto _test_eof330
 		}
 	st_case_330:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st331
-		case 110:
+		case 105:
 			goto st331
 		}
-		goto tr398
+		goto tr395
 	st331:
 		if p++; p == pe {
 			goto _test_eof331
 		}
 	st_case_331:
 		switch data[p] {
-		case 84:
+		case 67:
 			goto st332
-		case 116:
+		case 99:
 			goto st332
 		}
-		goto tr398
+		goto tr395
 	st332:
 		if p++; p == pe {
 			goto _test_eof332
 		}
 	st_case_332:
 		switch data[p] {
-		case 73:
+		case 65:
 			goto st333
-		case 105:
+		case 97:
 			goto st333
 		}
-		goto tr398
+		goto tr395
 	st333:
 		if p++; p == pe {
 			goto _test_eof333
 		}
 	st_case_333:
 		switch data[p] {
-		case 67:
+		case 84:
 			goto st334
-		case 99:
+		case 116:
 			goto st334
 		}
-		goto tr398
+		goto tr395
 	st334:
 		if p++; p == pe {
 			goto _test_eof334
 		}
 	st_case_334:
 		switch data[p] {
-		case 65:
+		case 73:
 			goto st335
-		case 97:
+		case 105:
 			goto st335
 		}
-		goto tr398
+		goto tr395
 	st335:
 		if p++; p == pe {
 			goto _test_eof335
 		}
 	st_case_335:
 		switch data[p] {
-		case 84:
+		case 79:
 			goto st336
-		case 116:
+		case 111:
 			goto st336
 		}
-		goto tr398
+		goto tr395
 	st336:
 		if p++; p == pe {
 			goto _test_eof336
 		}
 	st_case_336:
 		switch data[p] {
-		case 73:
+		case 78:
 			goto st337
-		case 105:
+		case 110:
 			goto st337
 		}
-		goto tr398
+		goto tr395
 	st337:
 		if p++; p == pe {
 			goto _test_eof337
 		}
 	st_case_337:
-		switch data[p] {
-		case 79:
-			goto st338
-		case 111:
+		if data[p] == 45 {
 			goto st338
 		}
-		goto tr398
+		goto tr395
 	st338:
 		if p++; p == pe {
 			goto _test_eof338
 		}
 	st_case_338:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st339
-		case 110:
+		case 105:
 			goto st339
 		}
-		goto tr398
+		goto tr395
 	st339:
 		if p++; p == pe {
 			goto _test_eof339
 		}
 	st_case_339:
-		if data[p] == 45 {
+		switch data[p] {
+		case 78:
+			goto st340
+		case 110:
 			goto st340
 		}
-		goto tr398
+		goto tr395
 	st340:
 		if p++; p == pe {
 			goto _test_eof340
 		}
 	st_case_340:
 		switch data[p] {
-		case 73:
+		case 70:
 			goto st341
-		case 105:
+		case 102:
 			goto st341
 		}
-		goto tr398
+		goto tr395
 	st341:
 		if p++; p == pe {
 			goto _test_eof341
 		}
 	st_case_341:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st342
-		case 110:
+		case 111:
 			goto st342
 		}
-		goto tr398
+		goto tr395
 	st342:
 		if p++; p == pe {
 			goto _test_eof342
 		}
 	st_case_342:
 		switch data[p] {
-		case 70:
-			goto st343
-		case 102:
-			goto st343
+		case 9:
+			goto tr501
+		case 32:
+			goto tr501
+		case 58:
+			goto tr502
 		}
-		goto tr398
+		goto tr395
 	st343:
 		if p++; p == pe {
 			goto _test_eof343
 		}
 	st_case_343:
 		switch data[p] {
-		case 79:
+		case 82:
 			goto st344
-		case 111:
+		case 114:
 			goto st344
 		}
-		goto tr398
+		goto tr395
 	st344:
 		if p++; p == pe {
 			goto _test_eof344
 		}
 	st_case_344:
 		switch data[p] {
-		case 9:
-			goto tr504
-		case 32:
-			goto tr504
-		case 58:
-			goto tr505
+		case 73:
+			goto st345
+		case 105:
+			goto st345
 		}
-		goto tr398
+		goto tr395
 	st345:
 		if p++; p == pe {
 			goto _test_eof345
 		}
 	st_case_345:
 		switch data[p] {
-		case 82:
+		case 90:
 			goto st346
-		case 114:
+		case 122:
 			goto st346
 		}
-		goto tr398
+		goto tr395
 	st346:
 		if p++; p == pe {
 			goto _test_eof346
 		}
 	st_case_346:
 		switch data[p] {
-		case 73:
+		case 65:
 			goto st347
-		case 105:
+		case 97:
 			goto st347
 		}
-		goto tr398
+		goto tr395
 	st347:
 		if p++; p == pe {
 			goto _test_eof347
 		}
 	st_case_347:
 		switch data[p] {
-		case 90:
+		case 84:
 			goto st348
-		case 122:
+		case 116:
 			goto st348
 		}
-		goto tr398
+		goto tr395
 	st348:
 		if p++; p == pe {
 			goto _test_eof348
 		}
 	st_case_348:
 		switch data[p] {
-		case 65:
+		case 73:
 			goto st349
-		case 97:
+		case 105:
 			goto st349
 		}
-		goto tr398
+		goto tr395
 	st349:
 		if p++; p == pe {
 			goto _test_eof349
 		}
 	st_case_349:
 		switch data[p] {
-		case 84:
+		case 79:
 			goto st350
-		case 116:
+		case 111:
 			goto st350
 		}
-		goto tr398
+		goto tr395
 	st350:
 		if p++; p == pe {
 			goto _test_eof350
 		}
 	st_case_350:
 		switch data[p] {
-		case 73:
+		case 78:
 			goto st351
-		case 105:
+		case 110:
 			goto st351
 		}
-		goto tr398
+		goto tr395
 	st351:
 		if p++; p == pe {
 			goto _test_eof351
 		}
 	st_case_351:
 		switch data[p] {
-		case 79:
-			goto st352
-		case 111:
-			goto st352
+		case 9:
+			goto tr511
+		case 32:
+			goto tr511
+		case 58:
+			goto tr512
 		}
-		goto tr398
+		goto tr395
 	st352:
 		if p++; p == pe {
 			goto _test_eof352
 		}
 	st_case_352:
 		switch data[p] {
-		case 78:
-			goto st353
-		case 110:
-			goto st353
+		case 9:
+			goto tr513
+		case 32:
+			goto tr513
+		case 58:
+			goto tr514
 		}
-		goto tr398
+		goto tr395
 	st353:
 		if p++; p == pe {
 			goto _test_eof353
@@ -10719,13 +10642,25 @@ value=&msg.WWWAuthenticate
 	st_case_353:
 		switch data[p] {
 		case 9:
-			goto tr514
+			goto st354
 		case 32:
-			goto tr514
+			goto st354
 		case 58:
-			goto tr515
+			goto st355
+		case 65:
+			goto st359
+		case 79:
+			goto st377
+		case 83:
+			goto st434
+		case 97:
+			goto st359
+		case 111:
+			goto st377
+		case 115:
+			goto st434
 		}
-		goto tr398
+		goto tr395
 	st354:
 		if p++; p == pe {
 			goto _test_eof354
@@ -10733,50 +10668,50 @@ value=&msg.WWWAuthenticate
 	st_case_354:
 		switch data[p] {
 		case 9:
-			goto tr516
+			goto st354
 		case 32:
-			goto tr516
+			goto st354
 		case 58:
-			goto tr517
+			goto st355
 		}
-		goto tr398
+		goto st0
 	st355:
 		if p++; p == pe {
 			goto _test_eof355
 		}
 	st_case_355:
-		switch data[p] {
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		switch _widec {
 		case 9:
-			goto st356
+			goto st355
 		case 32:
+			goto st355
+		case 269:
+			goto tr520
+		case 525:
 			goto st356
-		case 58:
-			goto st357
-		case 65:
-			goto st361
-		case 79:
-			goto st379
-		case 83:
-			goto st436
-		case 97:
-			goto st361
-		case 111:
-			goto st379
-		case 115:
-			goto st436
 		}
-		goto tr398
+		switch {
+		case _widec > 12:
+			if 14 <= _widec {
+				goto tr520
+			}
+		default:
+			goto tr520
+		}
+		goto st0
 	st356:
 		if p++; p == pe {
 			goto _test_eof356
 		}
 	st_case_356:
-		switch data[p] {
-		case 9:
-			goto st356
-		case 32:
-			goto st356
-		case 58:
+		if data[p] == 10 {
 			goto st357
 		}
 		goto st0
@@ -10785,159 +10720,119 @@ value=&msg.WWWAuthenticate
 			goto _test_eof357
 		}
 	st_case_357:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
+		switch data[p] {
 		case 9:
-			goto st357
+			goto st358
 		case 32:
-			goto st357
-		case 269:
-			goto tr523
-		case 525:
 			goto st358
 		}
-		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr523
-			}
-		default:
-			goto tr523
-		}
 		goto st0
 	st358:
 		if p++; p == pe {
 			goto _test_eof358
 		}
 	st_case_358:
-		if data[p] == 10 {
-			goto st359
+		switch data[p] {
+		case 9:
+			goto st358
+		case 32:
+			goto st358
 		}
-		goto st0
+		goto tr520
 	st359:
 		if p++; p == pe {
 			goto _test_eof359
 		}
 	st_case_359:
 		switch data[p] {
-		case 9:
+		case 76:
 			goto st360
-		case 32:
+		case 108:
 			goto st360
 		}
-		goto st0
+		goto tr395
 	st360:
 		if p++; p == pe {
 			goto _test_eof360
 		}
 	st_case_360:
 		switch data[p] {
-		case 9:
-			goto st360
-		case 32:
-			goto st360
+		case 76:
+			goto st361
+		case 108:
+			goto st361
 		}
-		goto tr523
+		goto tr395
 	st361:
 		if p++; p == pe {
 			goto _test_eof361
 		}
 	st_case_361:
-		switch data[p] {
-		case 76:
-			goto st362
-		case 108:
+		if data[p] == 45 {
 			goto st362
 		}
-		goto tr398
+		goto tr395
 	st362:
 		if p++; p == pe {
 			goto _test_eof362
 		}
 	st_case_362:
 		switch data[p] {
-		case 76:
+		case 73:
 			goto st363
-		case 108:
+		case 105:
 			goto st363
 		}
-		goto tr398
+		goto tr395
 	st363:
 		if p++; p == pe {
 			goto _test_eof363
 		}
 	st_case_363:
-		if data[p] == 45 {
+		switch data[p] {
+		case 68:
+			goto st364
+		case 78:
+			goto st374
+		case 100:
 			goto st364
+		case 110:
+			goto st374
 		}
-		goto tr398
+		goto tr395
 	st364:
 		if p++; p == pe {
 			goto _test_eof364
 		}
 	st_case_364:
 		switch data[p] {
-		case 73:
+		case 9:
 			goto st365
-		case 105:
+		case 32:
 			goto st365
+		case 58:
+			goto st366
 		}
-		goto tr398
+		goto tr395
 	st365:
 		if p++; p == pe {
 			goto _test_eof365
 		}
 	st_case_365:
-		switch data[p] {
-		case 68:
-			goto st366
-		case 78:
-			goto st376
-		case 100:
-			goto st366
-		case 110:
-			goto st376
-		}
-		goto tr398
-	st366:
-		if p++; p == pe {
-			goto _test_eof366
-		}
-	st_case_366:
-		switch data[p] {
-		case 9:
-			goto st367
-		case 32:
-			goto st367
-		case 58:
-			goto st368
-		}
-		goto tr398
-	st367:
-		if p++; p == pe {
-			goto _test_eof367
-		}
-	st_case_367:
 		switch data[p] {
 		case 9:
-			goto st367
+			goto st365
 		case 32:
-			goto st367
+			goto st365
 		case 58:
-			goto st368
+			goto st366
 		}
 		goto st0
-	st368:
+	st366:
 		if p++; p == pe {
-			goto _test_eof368
+			goto _test_eof366
 		}
-	st_case_368:
+	st_case_366:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -10947,59 +10842,59 @@ value=&msg.WWWAuthenticate
 		}
 		switch _widec {
 		case 9:
-			goto st368
+			goto st366
 		case 32:
-			goto st368
+			goto st366
 		case 37:
-			goto tr535
+			goto tr532
 		case 60:
-			goto tr535
+			goto tr532
 		case 525:
-			goto st373
+			goto st371
 		}
 		switch {
 		case _widec < 62:
 			switch {
 			case _widec < 39:
 				if 33 <= _widec && _widec <= 34 {
-					goto tr535
+					goto tr532
 				}
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 58 {
-					goto tr535
+					goto tr532
 				}
 			default:
-				goto tr535
+				goto tr532
 			}
 		case _widec > 63:
 			switch {
 			case _widec < 95:
 				if 65 <= _widec && _widec <= 93 {
-					goto tr535
+					goto tr532
 				}
 			case _widec > 123:
 				if 125 <= _widec && _widec <= 126 {
-					goto tr535
+					goto tr532
 				}
 			default:
-				goto tr535
+				goto tr532
 			}
 		default:
-			goto tr535
+			goto tr532
 		}
 		goto st0
-tr535:
+tr532:
 //line sip.rl:80
 
 	mark = p
 
-	goto st369
-	st369:
+	goto st367
+	st367:
 		if p++; p == pe {
-			goto _test_eof369
+			goto _test_eof367
 		}
-	st_case_369:
-//line msg_parse.go:10994
+	st_case_367:
+//line msg_parse.go:10889
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11009,88 +10904,88 @@ tr535:
 		}
 		switch _widec {
 		case 37:
-			goto st369
+			goto st367
 		case 60:
-			goto st369
+			goto st367
 		case 64:
-			goto st370
+			goto st368
 		case 269:
-			goto tr539
+			goto tr536
 		}
 		switch {
 		case _widec < 45:
 			switch {
 			case _widec > 34:
 				if 39 <= _widec && _widec <= 43 {
-					goto st369
+					goto st367
 				}
 			case _widec >= 33:
-				goto st369
+				goto st367
 			}
 		case _widec > 58:
 			switch {
 			case _widec < 95:
 				if 62 <= _widec && _widec <= 93 {
-					goto st369
+					goto st367
 				}
 			case _widec > 123:
 				if 125 <= _widec && _widec <= 126 {
-					goto st369
+					goto st367
 				}
 			default:
-				goto st369
+				goto st367
 			}
 		default:
-			goto st369
+			goto st367
 		}
 		goto st0
-	st370:
+	st368:
 		if p++; p == pe {
-			goto _test_eof370
+			goto _test_eof368
 		}
-	st_case_370:
+	st_case_368:
 		switch data[p] {
 		case 37:
-			goto st371
+			goto st369
 		case 60:
-			goto st371
+			goto st369
 		}
 		switch {
 		case data[p] < 62:
 			switch {
 			case data[p] < 39:
 				if 33 <= data[p] && data[p] <= 34 {
-					goto st371
+					goto st369
 				}
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 58 {
-					goto st371
+					goto st369
 				}
 			default:
-				goto st371
+				goto st369
 			}
 		case data[p] > 63:
 			switch {
 			case data[p] < 95:
 				if 65 <= data[p] && data[p] <= 93 {
-					goto st371
+					goto st369
 				}
 			case data[p] > 123:
 				if 125 <= data[p] && data[p] <= 126 {
-					goto st371
+					goto st369
 				}
 			default:
-				goto st371
+				goto st369
 			}
 		default:
-			goto st371
+			goto st369
 		}
 		goto st0
-	st371:
+	st369:
 		if p++; p == pe {
-			goto _test_eof371
+			goto _test_eof369
 		}
-	st_case_371:
+	st_case_369:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11100,325 +10995,325 @@ tr535:
 		}
 		switch _widec {
 		case 37:
-			goto st371
+			goto st369
 		case 60:
-			goto st371
+			goto st369
 		case 269:
-			goto tr539
+			goto tr536
 		}
 		switch {
 		case _widec < 62:
 			switch {
 			case _widec < 39:
 				if 33 <= _widec && _widec <= 34 {
-					goto st371
+					goto st369
 				}
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 58 {
-					goto st371
+					goto st369
 				}
 			default:
-				goto st371
+				goto st369
 			}
 		case _widec > 63:
 			switch {
 			case _widec < 95:
 				if 65 <= _widec && _widec <= 93 {
-					goto st371
+					goto st369
 				}
 			case _widec > 123:
 				if 125 <= _widec && _widec <= 126 {
-					goto st371
+					goto st369
 				}
 			default:
-				goto st371
+				goto st369
 			}
 		default:
-			goto st371
+			goto st369
 		}
 		goto st0
-tr539:
+tr536:
 //line sip.rl:229
 
 	msg.CallID = string(data[mark:p])
 
-	goto st372
-tr624:
+	goto st370
+tr621:
 //line sip.rl:251
 
 	msg.CSeqMethod = string(data[mark:p])
 
-	goto st372
-	st372:
+	goto st370
+	st370:
 		if p++; p == pe {
-			goto _test_eof372
+			goto _test_eof370
 		}
-	st_case_372:
-//line msg_parse.go:11149
+	st_case_370:
+//line msg_parse.go:11044
 		if data[p] == 10 {
-			goto tr541
+			goto tr538
 		}
 		goto st0
-	st373:
+	st371:
 		if p++; p == pe {
-			goto _test_eof373
+			goto _test_eof371
 		}
-	st_case_373:
+	st_case_371:
 		if data[p] == 10 {
-			goto st374
+			goto st372
 		}
 		goto st0
-	st374:
+	st372:
 		if p++; p == pe {
-			goto _test_eof374
+			goto _test_eof372
 		}
-	st_case_374:
+	st_case_372:
 		switch data[p] {
 		case 9:
-			goto st375
+			goto st373
 		case 32:
-			goto st375
+			goto st373
 		}
 		goto st0
-	st375:
+	st373:
 		if p++; p == pe {
-			goto _test_eof375
+			goto _test_eof373
 		}
-	st_case_375:
+	st_case_373:
 		switch data[p] {
 		case 9:
-			goto st375
+			goto st373
 		case 32:
-			goto st375
+			goto st373
 		case 37:
-			goto tr535
+			goto tr532
 		case 60:
-			goto tr535
+			goto tr532
 		}
 		switch {
 		case data[p] < 62:
 			switch {
 			case data[p] < 39:
 				if 33 <= data[p] && data[p] <= 34 {
-					goto tr535
+					goto tr532
 				}
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 58 {
-					goto tr535
+					goto tr532
 				}
 			default:
-				goto tr535
+				goto tr532
 			}
 		case data[p] > 63:
 			switch {
 			case data[p] < 95:
 				if 65 <= data[p] && data[p] <= 93 {
-					goto tr535
+					goto tr532
 				}
 			case data[p] > 123:
 				if 125 <= data[p] && data[p] <= 126 {
-					goto tr535
+					goto tr532
 				}
 			default:
-				goto tr535
+				goto tr532
 			}
 		default:
-			goto tr535
+			goto tr532
 		}
 		goto st0
+	st374:
+		if p++; p == pe {
+			goto _test_eof374
+		}
+	st_case_374:
+		switch data[p] {
+		case 70:
+			goto st375
+		case 102:
+			goto st375
+		}
+		goto tr395
+	st375:
+		if p++; p == pe {
+			goto _test_eof375
+		}
+	st_case_375:
+		switch data[p] {
+		case 79:
+			goto st376
+		case 111:
+			goto st376
+		}
+		goto tr395
 	st376:
 		if p++; p == pe {
 			goto _test_eof376
 		}
 	st_case_376:
 		switch data[p] {
-		case 70:
-			goto st377
-		case 102:
-			goto st377
+		case 9:
+			goto tr543
+		case 32:
+			goto tr543
+		case 58:
+			goto tr544
 		}
-		goto tr398
+		goto tr395
 	st377:
 		if p++; p == pe {
 			goto _test_eof377
 		}
 	st_case_377:
 		switch data[p] {
-		case 79:
+		case 78:
 			goto st378
-		case 111:
+		case 110:
 			goto st378
 		}
-		goto tr398
+		goto tr395
 	st378:
 		if p++; p == pe {
 			goto _test_eof378
 		}
 	st_case_378:
 		switch data[p] {
-		case 9:
-			goto tr546
-		case 32:
-			goto tr546
-		case 58:
-			goto tr547
+		case 84:
+			goto st379
+		case 116:
+			goto st379
 		}
-		goto tr398
+		goto tr395
 	st379:
 		if p++; p == pe {
 			goto _test_eof379
 		}
 	st_case_379:
 		switch data[p] {
-		case 78:
+		case 65:
 			goto st380
-		case 110:
+		case 69:
+			goto st388
+		case 97:
 			goto st380
+		case 101:
+			goto st388
 		}
-		goto tr398
+		goto tr395
 	st380:
 		if p++; p == pe {
 			goto _test_eof380
 		}
 	st_case_380:
 		switch data[p] {
-		case 84:
+		case 67:
 			goto st381
-		case 116:
+		case 99:
 			goto st381
 		}
-		goto tr398
+		goto tr395
 	st381:
 		if p++; p == pe {
 			goto _test_eof381
 		}
 	st_case_381:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st382
-		case 69:
-			goto st390
-		case 97:
+		case 116:
 			goto st382
-		case 101:
-			goto st390
 		}
-		goto tr398
+		goto tr395
 	st382:
 		if p++; p == pe {
 			goto _test_eof382
 		}
 	st_case_382:
-		switch data[p] {
-		case 67:
-			goto st383
-		case 99:
-			goto st383
-		}
-		goto tr398
-	st383:
-		if p++; p == pe {
-			goto _test_eof383
-		}
-	st_case_383:
-		switch data[p] {
-		case 84:
-			goto st384
-		case 116:
-			goto st384
-		}
-		goto tr398
-	st384:
-		if p++; p == pe {
-			goto _test_eof384
-		}
-	st_case_384:
 		switch data[p] {
 		case 9:
-			goto tr554
+			goto tr551
 		case 32:
-			goto tr554
+			goto tr551
 		case 58:
-			goto tr555
+			goto tr552
 		}
-		goto tr398
-tr554:
+		goto tr395
+tr551:
 //line sip.rl:461
 addrp=lastAddr(&msg.Contact)
-	goto st385
-tr664:
+	goto st383
+tr661:
 //line sip.rl:462
 addrp=lastAddr(&msg.From)
-	goto st385
-tr762:
+	goto st383
+tr759:
 //line sip.rl:463
 addrp=lastAddr(&msg.PAssertedIdentity)
-	goto st385
-tr829:
+	goto st383
+tr826:
 //line sip.rl:464
 addrp=lastAddr(&msg.RecordRoute)
-	goto st385
-tr853:
+	goto st383
+tr850:
 //line sip.rl:465
 addrp=lastAddr(&msg.RemotePartyID)
-	goto st385
-tr881:
+	goto st383
+tr878:
 //line sip.rl:466
 addrp=lastAddr(&msg.Route)
-	goto st385
-tr904:
+	goto st383
+tr901:
 //line sip.rl:467
 addrp=lastAddr(&msg.To)
-	goto st385
-	st385:
+	goto st383
+	st383:
 		if p++; p == pe {
-			goto _test_eof385
+			goto _test_eof383
 		}
-	st_case_385:
-//line msg_parse.go:11370
+	st_case_383:
+//line msg_parse.go:11265
 		switch data[p] {
 		case 9:
-			goto st385
+			goto st383
 		case 32:
-			goto st385
+			goto st383
 		case 58:
-			goto st386
+			goto st384
 		}
 		goto st0
-tr555:
+tr552:
 //line sip.rl:461
 addrp=lastAddr(&msg.Contact)
-	goto st386
-tr665:
+	goto st384
+tr662:
 //line sip.rl:462
 addrp=lastAddr(&msg.From)
-	goto st386
-tr763:
+	goto st384
+tr760:
 //line sip.rl:463
 addrp=lastAddr(&msg.PAssertedIdentity)
-	goto st386
-tr830:
+	goto st384
+tr827:
 //line sip.rl:464
 addrp=lastAddr(&msg.RecordRoute)
-	goto st386
-tr854:
+	goto st384
+tr851:
 //line sip.rl:465
 addrp=lastAddr(&msg.RemotePartyID)
-	goto st386
-tr882:
+	goto st384
+tr879:
 //line sip.rl:466
 addrp=lastAddr(&msg.Route)
-	goto st386
-tr905:
+	goto st384
+tr902:
 //line sip.rl:467
 addrp=lastAddr(&msg.To)
-	goto st386
-	st386:
+	goto st384
+	st384:
 		if p++; p == pe {
-			goto _test_eof386
+			goto _test_eof384
 		}
-	st_case_386:
-//line msg_parse.go:11413
+	st_case_384:
+//line msg_parse.go:11308
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11428,21 +11323,42 @@ addrp=lastAddr(&msg.To)
 		}
 		switch _widec {
 		case 9:
-			goto st386
+			goto st384
 		case 32:
-			goto st386
+			goto st384
 		case 269:
-			goto tr558
+			goto tr555
 		case 525:
-			goto st387
+			goto st385
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr558
+				goto tr555
 			}
 		default:
-			goto tr558
+			goto tr555
+		}
+		goto st0
+	st385:
+		if p++; p == pe {
+			goto _test_eof385
+		}
+	st_case_385:
+		if data[p] == 10 {
+			goto st386
+		}
+		goto st0
+	st386:
+		if p++; p == pe {
+			goto _test_eof386
+		}
+	st_case_386:
+		switch data[p] {
+		case 9:
+			goto st387
+		case 32:
+			goto st387
 		}
 		goto st0
 	st387:
@@ -11450,151 +11366,154 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof387
 		}
 	st_case_387:
-		if data[p] == 10 {
-			goto st388
+		switch data[p] {
+		case 9:
+			goto st387
+		case 32:
+			goto st387
 		}
-		goto st0
+		goto tr555
 	st388:
 		if p++; p == pe {
 			goto _test_eof388
 		}
 	st_case_388:
 		switch data[p] {
-		case 9:
+		case 78:
 			goto st389
-		case 32:
+		case 110:
 			goto st389
 		}
-		goto st0
+		goto tr395
 	st389:
 		if p++; p == pe {
 			goto _test_eof389
 		}
 	st_case_389:
 		switch data[p] {
-		case 9:
-			goto st389
-		case 32:
-			goto st389
+		case 84:
+			goto st390
+		case 116:
+			goto st390
 		}
-		goto tr558
+		goto tr395
 	st390:
 		if p++; p == pe {
 			goto _test_eof390
 		}
 	st_case_390:
-		switch data[p] {
-		case 78:
-			goto st391
-		case 110:
+		if data[p] == 45 {
 			goto st391
 		}
-		goto tr398
+		goto tr395
 	st391:
 		if p++; p == pe {
 			goto _test_eof391
 		}
 	st_case_391:
 		switch data[p] {
+		case 68:
+			goto st392
+		case 69:
+			goto st403
+		case 76:
+			goto st411
 		case 84:
+			goto st430
+		case 100:
 			goto st392
+		case 101:
+			goto st403
+		case 108:
+			goto st411
 		case 116:
-			goto st392
+			goto st430
 		}
-		goto tr398
+		goto tr395
 	st392:
 		if p++; p == pe {
 			goto _test_eof392
 		}
 	st_case_392:
-		if data[p] == 45 {
+		switch data[p] {
+		case 73:
+			goto st393
+		case 105:
 			goto st393
 		}
-		goto tr398
+		goto tr395
 	st393:
 		if p++; p == pe {
 			goto _test_eof393
 		}
 	st_case_393:
 		switch data[p] {
-		case 68:
+		case 83:
 			goto st394
-		case 69:
-			goto st405
-		case 76:
-			goto st413
-		case 84:
-			goto st432
-		case 100:
+		case 115:
 			goto st394
-		case 101:
-			goto st405
-		case 108:
-			goto st413
-		case 116:
-			goto st432
 		}
-		goto tr398
+		goto tr395
 	st394:
 		if p++; p == pe {
 			goto _test_eof394
 		}
 	st_case_394:
 		switch data[p] {
-		case 73:
+		case 80:
 			goto st395
-		case 105:
+		case 112:
 			goto st395
 		}
-		goto tr398
+		goto tr395
 	st395:
 		if p++; p == pe {
 			goto _test_eof395
 		}
 	st_case_395:
 		switch data[p] {
-		case 83:
+		case 79:
 			goto st396
-		case 115:
+		case 111:
 			goto st396
 		}
-		goto tr398
+		goto tr395
 	st396:
 		if p++; p == pe {
 			goto _test_eof396
 		}
 	st_case_396:
 		switch data[p] {
-		case 80:
+		case 83:
 			goto st397
-		case 112:
+		case 115:
 			goto st397
 		}
-		goto tr398
+		goto tr395
 	st397:
 		if p++; p == pe {
 			goto _test_eof397
 		}
 	st_case_397:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st398
-		case 111:
+		case 105:
 			goto st398
 		}
-		goto tr398
+		goto tr395
 	st398:
 		if p++; p == pe {
 			goto _test_eof398
 		}
 	st_case_398:
 		switch data[p] {
-		case 83:
+		case 84:
 			goto st399
-		case 115:
+		case 116:
 			goto st399
 		}
-		goto tr398
+		goto tr395
 	st399:
 		if p++; p == pe {
 			goto _test_eof399
@@ -11606,43 +11525,45 @@ addrp=lastAddr(&msg.To)
 		case 105:
 			goto st400
 		}
-		goto tr398
+		goto tr395
 	st400:
 		if p++; p == pe {
 			goto _test_eof400
 		}
 	st_case_400:
 		switch data[p] {
-		case 84:
+		case 79:
 			goto st401
-		case 116:
+		case 111:
 			goto st401
 		}
-		goto tr398
+		goto tr395
 	st401:
 		if p++; p == pe {
 			goto _test_eof401
 		}
 	st_case_401:
 		switch data[p] {
-		case 73:
+		case 78:
 			goto st402
-		case 105:
+		case 110:
 			goto st402
 		}
-		goto tr398
+		goto tr395
 	st402:
 		if p++; p == pe {
 			goto _test_eof402
 		}
 	st_case_402:
 		switch data[p] {
-		case 79:
-			goto st403
-		case 111:
-			goto st403
+		case 9:
+			goto tr576
+		case 32:
+			goto tr576
+		case 58:
+			goto tr577
 		}
-		goto tr398
+		goto tr395
 	st403:
 		if p++; p == pe {
 			goto _test_eof403
@@ -11654,302 +11575,276 @@ addrp=lastAddr(&msg.To)
 		case 110:
 			goto st404
 		}
-		goto tr398
+		goto tr395
 	st404:
 		if p++; p == pe {
 			goto _test_eof404
 		}
 	st_case_404:
 		switch data[p] {
-		case 9:
-			goto tr579
-		case 32:
-			goto tr579
-		case 58:
-			goto tr580
+		case 67:
+			goto st405
+		case 99:
+			goto st405
 		}
-		goto tr398
+		goto tr395
 	st405:
 		if p++; p == pe {
 			goto _test_eof405
 		}
 	st_case_405:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st406
-		case 110:
+		case 111:
 			goto st406
 		}
-		goto tr398
+		goto tr395
 	st406:
 		if p++; p == pe {
 			goto _test_eof406
 		}
 	st_case_406:
 		switch data[p] {
-		case 67:
+		case 68:
 			goto st407
-		case 99:
+		case 100:
 			goto st407
 		}
-		goto tr398
+		goto tr395
 	st407:
 		if p++; p == pe {
 			goto _test_eof407
 		}
 	st_case_407:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st408
-		case 111:
+		case 105:
 			goto st408
 		}
-		goto tr398
+		goto tr395
 	st408:
 		if p++; p == pe {
 			goto _test_eof408
 		}
 	st_case_408:
 		switch data[p] {
-		case 68:
+		case 78:
 			goto st409
-		case 100:
+		case 110:
 			goto st409
 		}
-		goto tr398
+		goto tr395
 	st409:
 		if p++; p == pe {
 			goto _test_eof409
 		}
 	st_case_409:
 		switch data[p] {
-		case 73:
+		case 71:
 			goto st410
-		case 105:
+		case 103:
 			goto st410
 		}
-		goto tr398
+		goto tr395
 	st410:
 		if p++; p == pe {
 			goto _test_eof410
 		}
 	st_case_410:
 		switch data[p] {
-		case 78:
-			goto st411
-		case 110:
-			goto st411
+		case 9:
+			goto tr585
+		case 32:
+			goto tr585
+		case 58:
+			goto tr586
 		}
-		goto tr398
+		goto tr395
 	st411:
 		if p++; p == pe {
 			goto _test_eof411
 		}
 	st_case_411:
 		switch data[p] {
-		case 71:
+		case 65:
 			goto st412
-		case 103:
+		case 69:
+			goto st419
+		case 97:
 			goto st412
+		case 101:
+			goto st419
 		}
-		goto tr398
+		goto tr395
 	st412:
 		if p++; p == pe {
 			goto _test_eof412
 		}
 	st_case_412:
 		switch data[p] {
-		case 9:
-			goto tr588
-		case 32:
-			goto tr588
-		case 58:
-			goto tr589
+		case 78:
+			goto st413
+		case 110:
+			goto st413
 		}
-		goto tr398
+		goto tr395
 	st413:
 		if p++; p == pe {
 			goto _test_eof413
 		}
 	st_case_413:
 		switch data[p] {
-		case 65:
+		case 71:
 			goto st414
-		case 69:
-			goto st421
-		case 97:
+		case 103:
 			goto st414
-		case 101:
-			goto st421
 		}
-		goto tr398
+		goto tr395
 	st414:
 		if p++; p == pe {
 			goto _test_eof414
 		}
 	st_case_414:
 		switch data[p] {
-		case 78:
+		case 85:
 			goto st415
-		case 110:
+		case 117:
 			goto st415
 		}
-		goto tr398
+		goto tr395
 	st415:
 		if p++; p == pe {
 			goto _test_eof415
 		}
 	st_case_415:
 		switch data[p] {
-		case 71:
+		case 65:
 			goto st416
-		case 103:
+		case 97:
 			goto st416
 		}
-		goto tr398
+		goto tr395
 	st416:
 		if p++; p == pe {
 			goto _test_eof416
 		}
 	st_case_416:
 		switch data[p] {
-		case 85:
+		case 71:
 			goto st417
-		case 117:
+		case 103:
 			goto st417
 		}
-		goto tr398
+		goto tr395
 	st417:
 		if p++; p == pe {
 			goto _test_eof417
 		}
 	st_case_417:
 		switch data[p] {
-		case 65:
+		case 69:
 			goto st418
-		case 97:
+		case 101:
 			goto st418
 		}
-		goto tr398
+		goto tr395
 	st418:
 		if p++; p == pe {
 			goto _test_eof418
 		}
 	st_case_418:
 		switch data[p] {
-		case 71:
-			goto st419
-		case 103:
-			goto st419
+		case 9:
+			goto tr595
+		case 32:
+			goto tr595
+		case 58:
+			goto tr596
 		}
-		goto tr398
+		goto tr395
 	st419:
 		if p++; p == pe {
 			goto _test_eof419
 		}
 	st_case_419:
 		switch data[p] {
-		case 69:
+		case 78:
 			goto st420
-		case 101:
+		case 110:
 			goto st420
 		}
-		goto tr398
+		goto tr395
 	st420:
 		if p++; p == pe {
 			goto _test_eof420
 		}
 	st_case_420:
 		switch data[p] {
-		case 9:
-			goto tr598
-		case 32:
-			goto tr598
-		case 58:
-			goto tr599
+		case 71:
+			goto st421
+		case 103:
+			goto st421
 		}
-		goto tr398
+		goto tr395
 	st421:
 		if p++; p == pe {
 			goto _test_eof421
 		}
 	st_case_421:
 		switch data[p] {
-		case 78:
+		case 84:
 			goto st422
-		case 110:
+		case 116:
 			goto st422
 		}
-		goto tr398
+		goto tr395
 	st422:
 		if p++; p == pe {
 			goto _test_eof422
 		}
 	st_case_422:
 		switch data[p] {
-		case 71:
+		case 72:
 			goto st423
-		case 103:
+		case 104:
 			goto st423
 		}
-		goto tr398
+		goto tr395
 	st423:
 		if p++; p == pe {
 			goto _test_eof423
 		}
 	st_case_423:
 		switch data[p] {
-		case 84:
+		case 9:
 			goto st424
-		case 116:
+		case 32:
 			goto st424
+		case 58:
+			goto st425
 		}
-		goto tr398
+		goto tr395
 	st424:
 		if p++; p == pe {
 			goto _test_eof424
 		}
 	st_case_424:
-		switch data[p] {
-		case 72:
-			goto st425
-		case 104:
-			goto st425
-		}
-		goto tr398
-	st425:
-		if p++; p == pe {
-			goto _test_eof425
-		}
-	st_case_425:
-		switch data[p] {
-		case 9:
-			goto st426
-		case 32:
-			goto st426
-		case 58:
-			goto st427
-		}
-		goto tr398
-	st426:
-		if p++; p == pe {
-			goto _test_eof426
-		}
-	st_case_426:
 		switch data[p] {
 		case 9:
-			goto st426
+			goto st424
 		case 32:
-			goto st426
+			goto st424
 		case 58:
-			goto st427
+			goto st425
 		}
 		goto st0
-	st427:
+	st425:
 		if p++; p == pe {
-			goto _test_eof427
+			goto _test_eof425
 		}
-	st_case_427:
+	st_case_425:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11959,17 +11854,17 @@ addrp=lastAddr(&msg.To)
 		}
 		switch _widec {
 		case 9:
-			goto st427
+			goto st425
 		case 32:
-			goto st427
+			goto st425
 		case 525:
-			goto st429
+			goto st427
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr605
+			goto tr602
 		}
 		goto st0
-tr605:
+tr602:
 //line sip.rl:517
 clen=0
 //line sip.rl:233
@@ -11979,8 +11874,8 @@ clen=0
 	}
 	clen = clen * 10 + (int(data[p]) - 0x30)
 
-	goto st428
-tr607:
+	goto st426
+tr604:
 //line sip.rl:233
 
 	if clen > (maxInt - 9) / 10 {
@@ -11988,13 +11883,13 @@ tr607:
 	}
 	clen = clen * 10 + (int(data[p]) - 0x30)
 
-	goto st428
-	st428:
+	goto st426
+	st426:
 		if p++; p == pe {
-			goto _test_eof428
+			goto _test_eof426
 		}
-	st_case_428:
-//line msg_parse.go:11989
+	st_case_426:
+//line msg_parse.go:11884
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12003,10 +11898,31 @@ tr607:
 			}
 		}
 		if _widec == 269 {
-			goto st372
+			goto st370
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr607
+			goto tr604
+		}
+		goto st0
+	st427:
+		if p++; p == pe {
+			goto _test_eof427
+		}
+	st_case_427:
+		if data[p] == 10 {
+			goto st428
+		}
+		goto st0
+	st428:
+		if p++; p == pe {
+			goto _test_eof428
+		}
+	st_case_428:
+		switch data[p] {
+		case 9:
+			goto st429
+		case 32:
+			goto st429
 		}
 		goto st0
 	st429:
@@ -12014,8 +11930,14 @@ tr607:
 			goto _test_eof429
 		}
 	st_case_429:
-		if data[p] == 10 {
-			goto st430
+		switch data[p] {
+		case 9:
+			goto st429
+		case 32:
+			goto st429
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr602
 		}
 		goto st0
 	st430:
@@ -12024,51 +11946,50 @@ tr607:
 		}
 	st_case_430:
 		switch data[p] {
-		case 9:
+		case 89:
 			goto st431
-		case 32:
+		case 121:
 			goto st431
 		}
-		goto st0
+		goto tr395
 	st431:
 		if p++; p == pe {
 			goto _test_eof431
 		}
 	st_case_431:
 		switch data[p] {
-		case 9:
-			goto st431
-		case 32:
-			goto st431
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr605
+		case 80:
+			goto st432
+		case 112:
+			goto st432
 		}
-		goto st0
+		goto tr395
 	st432:
 		if p++; p == pe {
 			goto _test_eof432
 		}
 	st_case_432:
 		switch data[p] {
-		case 89:
+		case 69:
 			goto st433
-		case 121:
+		case 101:
 			goto st433
 		}
-		goto tr398
+		goto tr395
 	st433:
 		if p++; p == pe {
 			goto _test_eof433
 		}
 	st_case_433:
 		switch data[p] {
-		case 80:
-			goto st434
-		case 112:
-			goto st434
+		case 9:
+			goto st354
+		case 32:
+			goto st354
+		case 58:
+			goto st355
 		}
-		goto tr398
+		goto tr395
 	st434:
 		if p++; p == pe {
 			goto _test_eof434
@@ -12080,78 +12001,52 @@ tr607:
 		case 101:
 			goto st435
 		}
-		goto tr398
+		goto tr395
 	st435:
 		if p++; p == pe {
 			goto _test_eof435
 		}
 	st_case_435:
 		switch data[p] {
-		case 9:
-			goto st356
-		case 32:
-			goto st356
-		case 58:
-			goto st357
+		case 81:
+			goto st436
+		case 113:
+			goto st436
 		}
-		goto tr398
+		goto tr395
 	st436:
 		if p++; p == pe {
 			goto _test_eof436
 		}
 	st_case_436:
 		switch data[p] {
-		case 69:
+		case 9:
 			goto st437
-		case 101:
+		case 32:
 			goto st437
+		case 58:
+			goto st438
 		}
-		goto tr398
+		goto tr395
 	st437:
 		if p++; p == pe {
 			goto _test_eof437
 		}
 	st_case_437:
-		switch data[p] {
-		case 81:
-			goto st438
-		case 113:
-			goto st438
-		}
-		goto tr398
-	st438:
-		if p++; p == pe {
-			goto _test_eof438
-		}
-	st_case_438:
-		switch data[p] {
-		case 9:
-			goto st439
-		case 32:
-			goto st439
-		case 58:
-			goto st440
-		}
-		goto tr398
-	st439:
-		if p++; p == pe {
-			goto _test_eof439
-		}
-	st_case_439:
 		switch data[p] {
 		case 9:
-			goto st439
+			goto st437
 		case 32:
-			goto st439
+			goto st437
 		case 58:
-			goto st440
+			goto st438
 		}
 		goto st0
-	st440:
+	st438:
 		if p++; p == pe {
-			goto _test_eof440
+			goto _test_eof438
 		}
-	st_case_440:
+	st_case_438:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12161,17 +12056,17 @@ tr607:
 		}
 		switch _widec {
 		case 9:
-			goto st440
+			goto st438
 		case 32:
-			goto st440
+			goto st438
 		case 525:
-			goto st447
+			goto st445
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr618
+			goto tr615
 		}
 		goto st0
-tr618:
+tr615:
 //line sip.rl:244
 
 	if msg.CSeq > (maxInt - 9) / 10 {
@@ -12179,13 +12074,13 @@ tr618:
 	}
 	msg.CSeq = msg.CSeq * 10 + (int(data[p]) - 0x30)
 
-	goto st441
-	st441:
+	goto st439
+	st439:
 		if p++; p == pe {
-			goto _test_eof441
+			goto _test_eof439
 		}
-	st_case_441:
-//line msg_parse.go:12180
+	st_case_439:
+//line msg_parse.go:12075
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12195,21 +12090,21 @@ tr618:
 		}
 		switch _widec {
 		case 9:
-			goto st442
+			goto st440
 		case 32:
-			goto st442
+			goto st440
 		case 525:
-			goto st444
+			goto st442
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr618
+			goto tr615
 		}
 		goto st0
-	st442:
+	st440:
 		if p++; p == pe {
-			goto _test_eof442
+			goto _test_eof440
 		}
-	st_case_442:
+	st_case_440:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12219,55 +12114,55 @@ tr618:
 		}
 		switch _widec {
 		case 9:
-			goto st442
+			goto st440
 		case 32:
-			goto st442
+			goto st440
 		case 33:
-			goto tr622
+			goto tr619
 		case 37:
-			goto tr622
+			goto tr619
 		case 39:
-			goto tr622
+			goto tr619
 		case 126:
-			goto tr622
+			goto tr619
 		case 525:
-			goto st444
+			goto st442
 		}
 		switch {
 		case _widec < 48:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto tr622
+					goto tr619
 				}
 			case _widec >= 42:
-				goto tr622
+				goto tr619
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr622
+					goto tr619
 				}
 			case _widec >= 65:
-				goto tr622
+				goto tr619
 			}
 		default:
-			goto tr622
+			goto tr619
 		}
 		goto st0
-tr622:
+tr619:
 //line sip.rl:80
 
 	mark = p
 
-	goto st443
-	st443:
+	goto st441
+	st441:
 		if p++; p == pe {
-			goto _test_eof443
+			goto _test_eof441
 		}
-	st_case_443:
-//line msg_parse.go:12262
+	st_case_441:
+//line msg_parse.go:12157
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12277,100 +12172,121 @@ tr622:
 		}
 		switch _widec {
 		case 33:
-			goto st443
+			goto st441
 		case 37:
-			goto st443
+			goto st441
 		case 39:
-			goto st443
+			goto st441
 		case 126:
-			goto st443
+			goto st441
 		case 269:
-			goto tr624
+			goto tr621
 		}
 		switch {
 		case _widec < 48:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto st443
+					goto st441
 				}
 			case _widec >= 42:
-				goto st443
+				goto st441
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto st443
+					goto st441
 				}
 			case _widec >= 65:
-				goto st443
+				goto st441
 			}
 		default:
-			goto st443
+			goto st441
 		}
 		goto st0
-	st444:
+	st442:
 		if p++; p == pe {
-			goto _test_eof444
+			goto _test_eof442
 		}
-	st_case_444:
+	st_case_442:
 		if data[p] == 10 {
-			goto st445
+			goto st443
 		}
 		goto st0
-	st445:
+	st443:
 		if p++; p == pe {
-			goto _test_eof445
+			goto _test_eof443
 		}
-	st_case_445:
+	st_case_443:
 		switch data[p] {
 		case 9:
-			goto st446
+			goto st444
 		case 32:
-			goto st446
+			goto st444
 		}
 		goto st0
-	st446:
+	st444:
 		if p++; p == pe {
-			goto _test_eof446
+			goto _test_eof444
 		}
-	st_case_446:
+	st_case_444:
 		switch data[p] {
 		case 9:
-			goto st446
+			goto st444
 		case 32:
-			goto st446
+			goto st444
 		case 33:
-			goto tr622
+			goto tr619
 		case 37:
-			goto tr622
+			goto tr619
 		case 39:
-			goto tr622
+			goto tr619
 		case 126:
-			goto tr622
+			goto tr619
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr622
+					goto tr619
 				}
 			case data[p] >= 42:
-				goto tr622
+				goto tr619
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr622
+					goto tr619
 				}
 			case data[p] >= 65:
-				goto tr622
+				goto tr619
 			}
 		default:
-			goto tr622
+			goto tr619
+		}
+		goto st0
+	st445:
+		if p++; p == pe {
+			goto _test_eof445
+		}
+	st_case_445:
+		if data[p] == 10 {
+			goto st446
+		}
+		goto st0
+	st446:
+		if p++; p == pe {
+			goto _test_eof446
+		}
+	st_case_446:
+		switch data[p] {
+		case 9:
+			goto st447
+		case 32:
+			goto st447
 		}
 		goto st0
 	st447:
@@ -12378,8 +12294,14 @@ tr622:
 			goto _test_eof447
 		}
 	st_case_447:
-		if data[p] == 10 {
-			goto st448
+		switch data[p] {
+		case 9:
+			goto st447
+		case 32:
+			goto st447
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr615
 		}
 		goto st0
 	st448:
@@ -12388,103 +12310,100 @@ tr622:
 		}
 	st_case_448:
 		switch data[p] {
-		case 9:
+		case 65:
 			goto st449
-		case 32:
+		case 97:
 			goto st449
 		}
-		goto st0
+		goto tr395
 	st449:
 		if p++; p == pe {
 			goto _test_eof449
 		}
 	st_case_449:
 		switch data[p] {
-		case 9:
-			goto st449
-		case 32:
-			goto st449
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr618
+		case 84:
+			goto st450
+		case 116:
+			goto st450
 		}
-		goto st0
+		goto tr395
 	st450:
 		if p++; p == pe {
 			goto _test_eof450
 		}
 	st_case_450:
 		switch data[p] {
-		case 65:
+		case 69:
 			goto st451
-		case 97:
+		case 101:
 			goto st451
 		}
-		goto tr398
+		goto tr395
 	st451:
 		if p++; p == pe {
 			goto _test_eof451
 		}
 	st_case_451:
 		switch data[p] {
-		case 84:
-			goto st452
-		case 116:
-			goto st452
+		case 9:
+			goto tr629
+		case 32:
+			goto tr629
+		case 58:
+			goto tr630
 		}
-		goto tr398
+		goto tr395
 	st452:
 		if p++; p == pe {
 			goto _test_eof452
 		}
 	st_case_452:
 		switch data[p] {
-		case 69:
+		case 9:
+			goto tr585
+		case 32:
+			goto tr585
+		case 58:
+			goto tr586
+		case 82:
 			goto st453
-		case 101:
+		case 86:
+			goto st462
+		case 88:
+			goto st466
+		case 114:
 			goto st453
+		case 118:
+			goto st462
+		case 120:
+			goto st466
 		}
-		goto tr398
+		goto tr395
 	st453:
 		if p++; p == pe {
 			goto _test_eof453
 		}
 	st_case_453:
 		switch data[p] {
-		case 9:
-			goto tr632
-		case 32:
-			goto tr632
-		case 58:
-			goto tr633
+		case 82:
+			goto st454
+		case 114:
+			goto st454
 		}
-		goto tr398
+		goto tr395
 	st454:
 		if p++; p == pe {
 			goto _test_eof454
 		}
 	st_case_454:
 		switch data[p] {
-		case 9:
-			goto tr588
-		case 32:
-			goto tr588
-		case 58:
-			goto tr589
-		case 82:
+		case 79:
 			goto st455
-		case 86:
-			goto st464
-		case 88:
-			goto st468
-		case 114:
+		case 111:
 			goto st455
-		case 118:
-			goto st464
-		case 120:
-			goto st468
 		}
-		goto tr398
+		goto tr395
 	st455:
 		if p++; p == pe {
 			goto _test_eof455
@@ -12496,245 +12415,221 @@ tr622:
 		case 114:
 			goto st456
 		}
-		goto tr398
+		goto tr395
 	st456:
 		if p++; p == pe {
 			goto _test_eof456
 		}
 	st_case_456:
-		switch data[p] {
-		case 79:
-			goto st457
-		case 111:
+		if data[p] == 45 {
 			goto st457
 		}
-		goto tr398
+		goto tr395
 	st457:
 		if p++; p == pe {
 			goto _test_eof457
 		}
 	st_case_457:
 		switch data[p] {
-		case 82:
+		case 73:
 			goto st458
-		case 114:
+		case 105:
 			goto st458
 		}
-		goto tr398
+		goto tr395
 	st458:
 		if p++; p == pe {
 			goto _test_eof458
 		}
 	st_case_458:
-		if data[p] == 45 {
+		switch data[p] {
+		case 78:
+			goto st459
+		case 110:
 			goto st459
 		}
-		goto tr398
+		goto tr395
 	st459:
 		if p++; p == pe {
 			goto _test_eof459
 		}
 	st_case_459:
 		switch data[p] {
-		case 73:
+		case 70:
 			goto st460
-		case 105:
+		case 102:
 			goto st460
 		}
-		goto tr398
+		goto tr395
 	st460:
 		if p++; p == pe {
 			goto _test_eof460
 		}
 	st_case_460:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st461
-		case 110:
+		case 111:
 			goto st461
 		}
-		goto tr398
+		goto tr395
 	st461:
 		if p++; p == pe {
 			goto _test_eof461
 		}
 	st_case_461:
 		switch data[p] {
-		case 70:
-			goto st462
-		case 102:
-			goto st462
+		case 9:
+			goto tr642
+		case 32:
+			goto tr642
+		case 58:
+			goto tr643
 		}
-		goto tr398
+		goto tr395
 	st462:
 		if p++; p == pe {
 			goto _test_eof462
 		}
 	st_case_462:
 		switch data[p] {
-		case 79:
+		case 69:
 			goto st463
-		case 111:
+		case 101:
 			goto st463
 		}
-		goto tr398
+		goto tr395
 	st463:
 		if p++; p == pe {
 			goto _test_eof463
 		}
 	st_case_463:
 		switch data[p] {
-		case 9:
-			goto tr645
-		case 32:
-			goto tr645
-		case 58:
-			goto tr646
+		case 78:
+			goto st464
+		case 110:
+			goto st464
 		}
-		goto tr398
+		goto tr395
 	st464:
 		if p++; p == pe {
 			goto _test_eof464
 		}
 	st_case_464:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st465
-		case 101:
+		case 116:
 			goto st465
 		}
-		goto tr398
+		goto tr395
 	st465:
 		if p++; p == pe {
 			goto _test_eof465
 		}
 	st_case_465:
 		switch data[p] {
-		case 78:
-			goto st466
-		case 110:
-			goto st466
+		case 9:
+			goto tr647
+		case 32:
+			goto tr647
+		case 58:
+			goto tr648
 		}
-		goto tr398
+		goto tr395
 	st466:
 		if p++; p == pe {
 			goto _test_eof466
 		}
 	st_case_466:
 		switch data[p] {
-		case 84:
+		case 80:
 			goto st467
-		case 116:
+		case 112:
 			goto st467
 		}
-		goto tr398
+		goto tr395
 	st467:
 		if p++; p == pe {
 			goto _test_eof467
 		}
 	st_case_467:
 		switch data[p] {
-		case 9:
-			goto tr650
-		case 32:
-			goto tr650
-		case 58:
-			goto tr651
+		case 73:
+			goto st468
+		case 105:
+			goto st468
 		}
-		goto tr398
+		goto tr395
 	st468:
 		if p++; p == pe {
 			goto _test_eof468
 		}
 	st_case_468:
 		switch data[p] {
-		case 80:
+		case 82:
 			goto st469
-		case 112:
+		case 114:
 			goto st469
 		}
-		goto tr398
+		goto tr395
 	st469:
 		if p++; p == pe {
 			goto _test_eof469
 		}
 	st_case_469:
 		switch data[p] {
-		case 73:
+		case 69:
 			goto st470
-		case 105:
+		case 101:
 			goto st470
 		}
-		goto tr398
+		goto tr395
 	st470:
 		if p++; p == pe {
 			goto _test_eof470
 		}
 	st_case_470:
 		switch data[p] {
-		case 82:
+		case 83:
 			goto st471
-		case 114:
+		case 115:
 			goto st471
 		}
-		goto tr398
+		goto tr395
 	st471:
 		if p++; p == pe {
 			goto _test_eof471
 		}
 	st_case_471:
 		switch data[p] {
-		case 69:
+		case 9:
 			goto st472
-		case 101:
+		case 32:
 			goto st472
+		case 58:
+			goto st473
 		}
-		goto tr398
+		goto tr395
 	st472:
 		if p++; p == pe {
 			goto _test_eof472
 		}
 	st_case_472:
-		switch data[p] {
-		case 83:
-			goto st473
-		case 115:
-			goto st473
-		}
-		goto tr398
-	st473:
-		if p++; p == pe {
-			goto _test_eof473
-		}
-	st_case_473:
-		switch data[p] {
-		case 9:
-			goto st474
-		case 32:
-			goto st474
-		case 58:
-			goto st475
-		}
-		goto tr398
-	st474:
-		if p++; p == pe {
-			goto _test_eof474
-		}
-	st_case_474:
 		switch data[p] {
 		case 9:
-			goto st474
+			goto st472
 		case 32:
-			goto st474
+			goto st472
 		case 58:
-			goto st475
+			goto st473
 		}
 		goto st0
-	st475:
+	st473:
 		if p++; p == pe {
-			goto _test_eof475
+			goto _test_eof473
 		}
-	st_case_475:
+	st_case_473:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12744,17 +12639,17 @@ tr622:
 		}
 		switch _widec {
 		case 9:
-			goto st475
+			goto st473
 		case 32:
-			goto st475
+			goto st473
 		case 525:
-			goto st477
+			goto st475
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr659
+			goto tr656
 		}
 		goto st0
-tr659:
+tr656:
 //line sip.rl:519
 msg.Expires=0
 //line sip.rl:255
@@ -12764,8 +12659,8 @@ msg.Expires=0
 	}
 	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
 
-	goto st476
-tr661:
+	goto st474
+tr658:
 //line sip.rl:255
 
 	if msg.Expires > (maxInt - 9) / 10 {
@@ -12773,13 +12668,13 @@ tr661:
 	}
 	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
 
-	goto st476
-	st476:
+	goto st474
+	st474:
 		if p++; p == pe {
-			goto _test_eof476
+			goto _test_eof474
 		}
-	st_case_476:
-//line msg_parse.go:12774
+	st_case_474:
+//line msg_parse.go:12669
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12788,10 +12683,31 @@ tr661:
 			}
 		}
 		if _widec == 269 {
-			goto st372
+			goto st370
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr661
+			goto tr658
+		}
+		goto st0
+	st475:
+		if p++; p == pe {
+			goto _test_eof475
+		}
+	st_case_475:
+		if data[p] == 10 {
+			goto st476
+		}
+		goto st0
+	st476:
+		if p++; p == pe {
+			goto _test_eof476
+		}
+	st_case_476:
+		switch data[p] {
+		case 9:
+			goto st477
+		case 32:
+			goto st477
 		}
 		goto st0
 	st477:
@@ -12799,8 +12715,14 @@ tr661:
 			goto _test_eof477
 		}
 	st_case_477:
-		if data[p] == 10 {
-			goto st478
+		switch data[p] {
+		case 9:
+			goto st477
+		case 32:
+			goto st477
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr656
 		}
 		goto st0
 	st478:
@@ -12810,202 +12732,203 @@ tr661:
 	st_case_478:
 		switch data[p] {
 		case 9:
-			goto st479
+			goto tr661
 		case 32:
+			goto tr661
+		case 58:
+			goto tr662
+		case 82:
+			goto st479
+		case 114:
 			goto st479
 		}
-		goto st0
+		goto tr395
 	st479:
 		if p++; p == pe {
 			goto _test_eof479
 		}
 	st_case_479:
 		switch data[p] {
-		case 9:
-			goto st479
-		case 32:
-			goto st479
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr659
+		case 79:
+			goto st480
+		case 111:
+			goto st480
 		}
-		goto st0
+		goto tr395
 	st480:
 		if p++; p == pe {
 			goto _test_eof480
 		}
 	st_case_480:
 		switch data[p] {
-		case 9:
-			goto tr664
-		case 32:
-			goto tr664
-		case 58:
-			goto tr665
-		case 82:
+		case 77:
 			goto st481
-		case 114:
+		case 109:
 			goto st481
 		}
-		goto tr398
+		goto tr395
 	st481:
 		if p++; p == pe {
 			goto _test_eof481
 		}
 	st_case_481:
 		switch data[p] {
-		case 79:
-			goto st482
-		case 111:
-			goto st482
+		case 9:
+			goto tr661
+		case 32:
+			goto tr661
+		case 58:
+			goto tr662
 		}
-		goto tr398
+		goto tr395
 	st482:
 		if p++; p == pe {
 			goto _test_eof482
 		}
 	st_case_482:
 		switch data[p] {
-		case 77:
+		case 9:
+			goto st365
+		case 32:
+			goto st365
+		case 58:
+			goto st366
+		case 78:
 			goto st483
-		case 109:
+		case 110:
 			goto st483
 		}
-		goto tr398
+		goto tr395
 	st483:
 		if p++; p == pe {
 			goto _test_eof483
 		}
 	st_case_483:
-		switch data[p] {
-		case 9:
-			goto tr664
-		case 32:
-			goto tr664
-		case 58:
-			goto tr665
+		if data[p] == 45 {
+			goto st484
 		}
-		goto tr398
+		goto tr395
 	st484:
 		if p++; p == pe {
 			goto _test_eof484
 		}
 	st_case_484:
 		switch data[p] {
-		case 9:
-			goto st367
-		case 32:
-			goto st367
-		case 58:
-			goto st368
-		case 78:
+		case 82:
 			goto st485
-		case 110:
+		case 114:
 			goto st485
 		}
-		goto tr398
+		goto tr395
 	st485:
 		if p++; p == pe {
 			goto _test_eof485
 		}
 	st_case_485:
-		if data[p] == 45 {
+		switch data[p] {
+		case 69:
+			goto st486
+		case 101:
 			goto st486
 		}
-		goto tr398
+		goto tr395
 	st486:
 		if p++; p == pe {
 			goto _test_eof486
 		}
 	st_case_486:
 		switch data[p] {
-		case 82:
+		case 80:
 			goto st487
-		case 114:
+		case 112:
 			goto st487
 		}
-		goto tr398
+		goto tr395
 	st487:
 		if p++; p == pe {
 			goto _test_eof487
 		}
 	st_case_487:
 		switch data[p] {
-		case 69:
+		case 76:
 			goto st488
-		case 101:
+		case 108:
 			goto st488
 		}
-		goto tr398
+		goto tr395
 	st488:
 		if p++; p == pe {
 			goto _test_eof488
 		}
 	st_case_488:
 		switch data[p] {
-		case 80:
+		case 89:
 			goto st489
-		case 112:
+		case 121:
 			goto st489
 		}
-		goto tr398
+		goto tr395
 	st489:
 		if p++; p == pe {
 			goto _test_eof489
 		}
 	st_case_489:
-		switch data[p] {
-		case 76:
-			goto st490
-		case 108:
+		if data[p] == 45 {
 			goto st490
 		}
-		goto tr398
+		goto tr395
 	st490:
 		if p++; p == pe {
 			goto _test_eof490
 		}
 	st_case_490:
 		switch data[p] {
-		case 89:
+		case 84:
 			goto st491
-		case 121:
+		case 116:
 			goto st491
 		}
-		goto tr398
+		goto tr395
 	st491:
 		if p++; p == pe {
 			goto _test_eof491
 		}
 	st_case_491:
-		if data[p] == 45 {
+		switch data[p] {
+		case 79:
+			goto st492
+		case 111:
 			goto st492
 		}
-		goto tr398
+		goto tr395
 	st492:
 		if p++; p == pe {
 			goto _test_eof492
 		}
 	st_case_492:
 		switch data[p] {
-		case 84:
-			goto st493
-		case 116:
-			goto st493
+		case 9:
+			goto tr676
+		case 32:
+			goto tr676
+		case 58:
+			goto tr677
 		}
-		goto tr398
+		goto tr395
 	st493:
 		if p++; p == pe {
 			goto _test_eof493
 		}
 	st_case_493:
 		switch data[p] {
-		case 79:
-			goto st494
-		case 111:
-			goto st494
+		case 9:
+			goto tr678
+		case 32:
+			goto tr678
+		case 58:
+			goto tr679
 		}
-		goto tr398
+		goto tr395
 	st494:
 		if p++; p == pe {
 			goto _test_eof494
@@ -13013,199 +12936,171 @@ tr661:
 	st_case_494:
 		switch data[p] {
 		case 9:
-			goto tr679
+			goto tr551
 		case 32:
-			goto tr679
+			goto tr551
 		case 58:
-			goto tr680
+			goto tr552
+		case 65:
+			goto st495
+		case 73:
+			goto st512
+		case 97:
+			goto st495
+		case 105:
+			goto st512
 		}
-		goto tr398
+		goto tr395
 	st495:
 		if p++; p == pe {
 			goto _test_eof495
 		}
 	st_case_495:
 		switch data[p] {
-		case 9:
-			goto tr681
-		case 32:
-			goto tr681
-		case 58:
-			goto tr682
-		}
-		goto tr398
-	st496:
-		if p++; p == pe {
-			goto _test_eof496
-		}
-	st_case_496:
-		switch data[p] {
-		case 9:
-			goto tr554
-		case 32:
-			goto tr554
-		case 58:
-			goto tr555
-		case 65:
-			goto st497
-		case 73:
-			goto st514
-		case 97:
+		case 88:
+			goto st496
+		case 120:
+			goto st496
+		}
+		goto tr395
+	st496:
+		if p++; p == pe {
+			goto _test_eof496
+		}
+	st_case_496:
+		if data[p] == 45 {
 			goto st497
-		case 105:
-			goto st514
 		}
-		goto tr398
+		goto tr395
 	st497:
 		if p++; p == pe {
 			goto _test_eof497
 		}
 	st_case_497:
 		switch data[p] {
-		case 88:
+		case 70:
 			goto st498
-		case 120:
+		case 102:
 			goto st498
 		}
-		goto tr398
+		goto tr395
 	st498:
 		if p++; p == pe {
 			goto _test_eof498
 		}
 	st_case_498:
-		if data[p] == 45 {
+		switch data[p] {
+		case 79:
+			goto st499
+		case 111:
 			goto st499
 		}
-		goto tr398
+		goto tr395
 	st499:
 		if p++; p == pe {
 			goto _test_eof499
 		}
 	st_case_499:
 		switch data[p] {
-		case 70:
+		case 82:
 			goto st500
-		case 102:
+		case 114:
 			goto st500
 		}
-		goto tr398
+		goto tr395
 	st500:
 		if p++; p == pe {
 			goto _test_eof500
 		}
 	st_case_500:
 		switch data[p] {
-		case 79:
+		case 87:
 			goto st501
-		case 111:
+		case 119:
 			goto st501
 		}
-		goto tr398
+		goto tr395
 	st501:
 		if p++; p == pe {
 			goto _test_eof501
 		}
 	st_case_501:
 		switch data[p] {
-		case 82:
+		case 65:
 			goto st502
-		case 114:
+		case 97:
 			goto st502
 		}
-		goto tr398
+		goto tr395
 	st502:
 		if p++; p == pe {
 			goto _test_eof502
 		}
 	st_case_502:
 		switch data[p] {
-		case 87:
+		case 82:
 			goto st503
-		case 119:
+		case 114:
 			goto st503
 		}
-		goto tr398
+		goto tr395
 	st503:
 		if p++; p == pe {
 			goto _test_eof503
 		}
 	st_case_503:
 		switch data[p] {
-		case 65:
+		case 68:
 			goto st504
-		case 97:
+		case 100:
 			goto st504
 		}
-		goto tr398
+		goto tr395
 	st504:
 		if p++; p == pe {
 			goto _test_eof504
 		}
 	st_case_504:
 		switch data[p] {
-		case 82:
+		case 83:
 			goto st505
-		case 114:
+		case 115:
 			goto st505
 		}
-		goto tr398
+		goto tr395
 	st505:
 		if p++; p == pe {
 			goto _test_eof505
 		}
 	st_case_505:
 		switch data[p] {
-		case 68:
+		case 9:
 			goto st506
-		case 100:
+		case 32:
 			goto st506
+		case 58:
+			goto st507
 		}
-		goto tr398
+		goto tr395
 	st506:
 		if p++; p == pe {
 			goto _test_eof506
 		}
 	st_case_506:
-		switch data[p] {
-		case 83:
-			goto st507
-		case 115:
-			goto st507
-		}
-		goto tr398
-	st507:
-		if p++; p == pe {
-			goto _test_eof507
-		}
-	st_case_507:
-		switch data[p] {
-		case 9:
-			goto st508
-		case 32:
-			goto st508
-		case 58:
-			goto st509
-		}
-		goto tr398
-	st508:
-		if p++; p == pe {
-			goto _test_eof508
-		}
-	st_case_508:
 		switch data[p] {
 		case 9:
-			goto st508
+			goto st506
 		case 32:
-			goto st508
+			goto st506
 		case 58:
-			goto st509
+			goto st507
 		}
 		goto st0
-	st509:
+	st507:
 		if p++; p == pe {
-			goto _test_eof509
+			goto _test_eof507
 		}
-	st_case_509:
+	st_case_507:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13215,17 +13110,17 @@ tr661:
 		}
 		switch _widec {
 		case 9:
-			goto st509
+			goto st507
 		case 32:
-			goto st509
+			goto st507
 		case 525:
-			goto st511
+			goto st509
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr697
+			goto tr694
 		}
 		goto st0
-tr697:
+tr694:
 //line sip.rl:520
 msg.MaxForwards=0
 //line sip.rl:262
@@ -13235,8 +13130,8 @@ msg.MaxForwards=0
 	}
 	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
 
-	goto st510
-tr699:
+	goto st508
+tr696:
 //line sip.rl:262
 
 	if msg.MaxForwards > (maxInt - 9) / 10 {
@@ -13244,13 +13139,13 @@ tr699:
 	}
 	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
 
-	goto st510
-	st510:
+	goto st508
+	st508:
 		if p++; p == pe {
-			goto _test_eof510
+			goto _test_eof508
 		}
-	st_case_510:
-//line msg_parse.go:13245
+	st_case_508:
+//line msg_parse.go:13140
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13259,10 +13154,31 @@ tr699:
 			}
 		}
 		if _widec == 269 {
-			goto st372
+			goto st370
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr699
+			goto tr696
+		}
+		goto st0
+	st509:
+		if p++; p == pe {
+			goto _test_eof509
+		}
+	st_case_509:
+		if data[p] == 10 {
+			goto st510
+		}
+		goto st0
+	st510:
+		if p++; p == pe {
+			goto _test_eof510
+		}
+	st_case_510:
+		switch data[p] {
+		case 9:
+			goto st511
+		case 32:
+			goto st511
 		}
 		goto st0
 	st511:
@@ -13270,8 +13186,14 @@ tr699:
 			goto _test_eof511
 		}
 	st_case_511:
-		if data[p] == 10 {
-			goto st512
+		switch data[p] {
+		case 9:
+			goto st511
+		case 32:
+			goto st511
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr694
 		}
 		goto st0
 	st512:
@@ -13280,288 +13202,261 @@ tr699:
 		}
 	st_case_512:
 		switch data[p] {
-		case 9:
+		case 77:
 			goto st513
-		case 32:
+		case 78:
+			goto st523
+		case 109:
 			goto st513
+		case 110:
+			goto st523
 		}
-		goto st0
+		goto tr395
 	st513:
 		if p++; p == pe {
 			goto _test_eof513
 		}
 	st_case_513:
 		switch data[p] {
-		case 9:
-			goto st513
-		case 32:
-			goto st513
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr697
+		case 69:
+			goto st514
+		case 101:
+			goto st514
 		}
-		goto st0
+		goto tr395
 	st514:
 		if p++; p == pe {
 			goto _test_eof514
 		}
 	st_case_514:
-		switch data[p] {
-		case 77:
-			goto st515
-		case 78:
-			goto st525
-		case 109:
+		if data[p] == 45 {
 			goto st515
-		case 110:
-			goto st525
 		}
-		goto tr398
+		goto tr395
 	st515:
 		if p++; p == pe {
 			goto _test_eof515
 		}
 	st_case_515:
 		switch data[p] {
-		case 69:
+		case 86:
 			goto st516
-		case 101:
+		case 118:
 			goto st516
 		}
-		goto tr398
+		goto tr395
 	st516:
 		if p++; p == pe {
 			goto _test_eof516
 		}
 	st_case_516:
-		if data[p] == 45 {
+		switch data[p] {
+		case 69:
+			goto st517
+		case 101:
 			goto st517
 		}
-		goto tr398
+		goto tr395
 	st517:
 		if p++; p == pe {
 			goto _test_eof517
 		}
 	st_case_517:
 		switch data[p] {
-		case 86:
+		case 82:
 			goto st518
-		case 118:
+		case 114:
 			goto st518
 		}
-		goto tr398
+		goto tr395
 	st518:
 		if p++; p == pe {
 			goto _test_eof518
 		}
 	st_case_518:
 		switch data[p] {
-		case 69:
+		case 83:
 			goto st519
-		case 101:
+		case 115:
 			goto st519
 		}
-		goto tr398
+		goto tr395
 	st519:
 		if p++; p == pe {
 			goto _test_eof519
 		}
 	st_case_519:
 		switch data[p] {
-		case 82:
+		case 73:
 			goto st520
-		case 114:
+		case 105:
 			goto st520
 		}
-		goto tr398
+		goto tr395
 	st520:
 		if p++; p == pe {
 			goto _test_eof520
 		}
 	st_case_520:
 		switch data[p] {
-		case 83:
+		case 79:
 			goto st521
-		case 115:
+		case 111:
 			goto st521
 		}
-		goto tr398
+		goto tr395
 	st521:
 		if p++; p == pe {
 			goto _test_eof521
 		}
 	st_case_521:
 		switch data[p] {
-		case 73:
+		case 78:
 			goto st522
-		case 105:
+		case 110:
 			goto st522
 		}
-		goto tr398
+		goto tr395
 	st522:
 		if p++; p == pe {
 			goto _test_eof522
 		}
 	st_case_522:
 		switch data[p] {
-		case 79:
-			goto st523
-		case 111:
-			goto st523
+		case 9:
+			goto tr710
+		case 32:
+			goto tr710
+		case 58:
+			goto tr711
 		}
-		goto tr398
+		goto tr395
 	st523:
 		if p++; p == pe {
 			goto _test_eof523
 		}
 	st_case_523:
-		switch data[p] {
-		case 78:
-			goto st524
-		case 110:
+		if data[p] == 45 {
 			goto st524
 		}
-		goto tr398
+		goto tr395
 	st524:
 		if p++; p == pe {
 			goto _test_eof524
 		}
 	st_case_524:
 		switch data[p] {
-		case 9:
-			goto tr713
-		case 32:
-			goto tr713
-		case 58:
-			goto tr714
+		case 69:
+			goto st525
+		case 101:
+			goto st525
 		}
-		goto tr398
+		goto tr395
 	st525:
 		if p++; p == pe {
 			goto _test_eof525
 		}
 	st_case_525:
-		if data[p] == 45 {
+		switch data[p] {
+		case 88:
+			goto st526
+		case 120:
 			goto st526
 		}
-		goto tr398
+		goto tr395
 	st526:
 		if p++; p == pe {
 			goto _test_eof526
 		}
 	st_case_526:
 		switch data[p] {
-		case 69:
+		case 80:
 			goto st527
-		case 101:
+		case 112:
 			goto st527
 		}
-		goto tr398
+		goto tr395
 	st527:
 		if p++; p == pe {
 			goto _test_eof527
 		}
 	st_case_527:
 		switch data[p] {
-		case 88:
+		case 73:
 			goto st528
-		case 120:
+		case 105:
 			goto st528
 		}
-		goto tr398
+		goto tr395
 	st528:
 		if p++; p == pe {
 			goto _test_eof528
 		}
 	st_case_528:
 		switch data[p] {
-		case 80:
+		case 82:
 			goto st529
-		case 112:
+		case 114:
 			goto st529
 		}
-		goto tr398
+		goto tr395
 	st529:
 		if p++; p == pe {
 			goto _test_eof529
 		}
 	st_case_529:
 		switch data[p] {
-		case 73:
+		case 69:
 			goto st530
-		case 105:
+		case 101:
 			goto st530
 		}
-		goto tr398
+		goto tr395
 	st530:
 		if p++; p == pe {
 			goto _test_eof530
 		}
 	st_case_530:
 		switch data[p] {
-		case 82:
+		case 83:
 			goto st531
-		case 114:
+		case 115:
 			goto st531
 		}
-		goto tr398
+		goto tr395
 	st531:
 		if p++; p == pe {
 			goto _test_eof531
 		}
 	st_case_531:
 		switch data[p] {
-		case 69:
+		case 9:
 			goto st532
-		case 101:
+		case 32:
 			goto st532
+		case 58:
+			goto st533
 		}
-		goto tr398
+		goto tr395
 	st532:
 		if p++; p == pe {
 			goto _test_eof532
 		}
-	st_case_532:
-		switch data[p] {
-		case 83:
-			goto st533
-		case 115:
-			goto st533
-		}
-		goto tr398
-	st533:
-		if p++; p == pe {
-			goto _test_eof533
-		}
-	st_case_533:
-		switch data[p] {
-		case 9:
-			goto st534
-		case 32:
-			goto st534
-		case 58:
-			goto st535
-		}
-		goto tr398
-	st534:
-		if p++; p == pe {
-			goto _test_eof534
-		}
-	st_case_534:
+	st_case_532:
 		switch data[p] {
 		case 9:
-			goto st534
+			goto st532
 		case 32:
-			goto st534
+			goto st532
 		case 58:
-			goto st535
+			goto st533
 		}
 		goto st0
-	st535:
+	st533:
 		if p++; p == pe {
-			goto _test_eof535
+			goto _test_eof533
 		}
-	st_case_535:
+	st_case_533:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13571,17 +13466,17 @@ tr699:
 		}
 		switch _widec {
 		case 9:
-			goto st535
+			goto st533
 		case 32:
-			goto st535
+			goto st533
 		case 525:
-			goto st537
+			goto st535
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr725
+			goto tr722
 		}
 		goto st0
-tr725:
+tr722:
 //line sip.rl:521
 msg.MinExpires=0
 //line sip.rl:269
@@ -13591,8 +13486,8 @@ msg.MinExpires=0
 	}
 	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
 
-	goto st536
-tr727:
+	goto st534
+tr724:
 //line sip.rl:269
 
 	if msg.MinExpires > (maxInt - 9) / 10 {
@@ -13600,13 +13495,13 @@ tr727:
 	}
 	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
 
-	goto st536
-	st536:
+	goto st534
+	st534:
 		if p++; p == pe {
-			goto _test_eof536
+			goto _test_eof534
 		}
-	st_case_536:
-//line msg_parse.go:13601
+	st_case_534:
+//line msg_parse.go:13496
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13615,10 +13510,31 @@ tr727:
 			}
 		}
 		if _widec == 269 {
-			goto st372
+			goto st370
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr727
+			goto tr724
+		}
+		goto st0
+	st535:
+		if p++; p == pe {
+			goto _test_eof535
+		}
+	st_case_535:
+		if data[p] == 10 {
+			goto st536
+		}
+		goto st0
+	st536:
+		if p++; p == pe {
+			goto _test_eof536
+		}
+	st_case_536:
+		switch data[p] {
+		case 9:
+			goto st537
+		case 32:
+			goto st537
 		}
 		goto st0
 	st537:
@@ -13626,8 +13542,14 @@ tr727:
 			goto _test_eof537
 		}
 	st_case_537:
-		if data[p] == 10 {
-			goto st538
+		switch data[p] {
+		case 9:
+			goto st537
+		case 32:
+			goto st537
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr722
 		}
 		goto st0
 	st538:
@@ -13637,345 +13559,342 @@ tr727:
 	st_case_538:
 		switch data[p] {
 		case 9:
-			goto st539
+			goto tr647
 		case 32:
+			goto tr647
+		case 58:
+			goto tr648
+		case 82:
+			goto st539
+		case 114:
 			goto st539
 		}
-		goto st0
+		goto tr395
 	st539:
 		if p++; p == pe {
 			goto _test_eof539
 		}
 	st_case_539:
 		switch data[p] {
-		case 9:
-			goto st539
-		case 32:
-			goto st539
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr725
+		case 71:
+			goto st540
+		case 103:
+			goto st540
 		}
-		goto st0
+		goto tr395
 	st540:
 		if p++; p == pe {
 			goto _test_eof540
 		}
 	st_case_540:
 		switch data[p] {
-		case 9:
-			goto tr650
-		case 32:
-			goto tr650
-		case 58:
-			goto tr651
-		case 82:
+		case 65:
 			goto st541
-		case 114:
+		case 97:
 			goto st541
 		}
-		goto tr398
+		goto tr395
 	st541:
 		if p++; p == pe {
 			goto _test_eof541
 		}
 	st_case_541:
 		switch data[p] {
-		case 71:
+		case 78:
 			goto st542
-		case 103:
+		case 110:
 			goto st542
 		}
-		goto tr398
+		goto tr395
 	st542:
 		if p++; p == pe {
 			goto _test_eof542
 		}
 	st_case_542:
 		switch data[p] {
-		case 65:
+		case 73:
 			goto st543
-		case 97:
+		case 105:
 			goto st543
 		}
-		goto tr398
+		goto tr395
 	st543:
 		if p++; p == pe {
 			goto _test_eof543
 		}
 	st_case_543:
 		switch data[p] {
-		case 78:
+		case 90:
 			goto st544
-		case 110:
+		case 122:
 			goto st544
 		}
-		goto tr398
+		goto tr395
 	st544:
 		if p++; p == pe {
 			goto _test_eof544
 		}
 	st_case_544:
 		switch data[p] {
-		case 73:
+		case 65:
 			goto st545
-		case 105:
+		case 97:
 			goto st545
 		}
-		goto tr398
+		goto tr395
 	st545:
 		if p++; p == pe {
 			goto _test_eof545
 		}
 	st_case_545:
 		switch data[p] {
-		case 90:
+		case 84:
 			goto st546
-		case 122:
+		case 116:
 			goto st546
 		}
-		goto tr398
+		goto tr395
 	st546:
 		if p++; p == pe {
 			goto _test_eof546
 		}
 	st_case_546:
 		switch data[p] {
-		case 65:
+		case 73:
 			goto st547
-		case 97:
+		case 105:
 			goto st547
 		}
-		goto tr398
+		goto tr395
 	st547:
 		if p++; p == pe {
 			goto _test_eof547
 		}
 	st_case_547:
 		switch data[p] {
-		case 84:
+		case 79:
 			goto st548
-		case 116:
+		case 111:
 			goto st548
 		}
-		goto tr398
+		goto tr395
 	st548:
 		if p++; p == pe {
 			goto _test_eof548
 		}
 	st_case_548:
 		switch data[p] {
-		case 73:
+		case 78:
 			goto st549
-		case 105:
+		case 110:
 			goto st549
 		}
-		goto tr398
+		goto tr395
 	st549:
 		if p++; p == pe {
 			goto _test_eof549
 		}
 	st_case_549:
 		switch data[p] {
-		case 79:
-			goto st550
-		case 111:
-			goto st550
+		case 9:
+			goto tr738
+		case 32:
+			goto tr738
+		case 58:
+			goto tr739
 		}
-		goto tr398
+		goto tr395
 	st550:
 		if p++; p == pe {
 			goto _test_eof550
 		}
 	st_case_550:
 		switch data[p] {
-		case 78:
-			goto st551
-		case 110:
+		case 45:
 			goto st551
+		case 82:
+			goto st569
+		case 114:
+			goto st569
 		}
-		goto tr398
+		goto tr395
 	st551:
 		if p++; p == pe {
 			goto _test_eof551
 		}
 	st_case_551:
 		switch data[p] {
-		case 9:
-			goto tr741
-		case 32:
-			goto tr741
-		case 58:
-			goto tr742
+		case 65:
+			goto st552
+		case 97:
+			goto st552
 		}
-		goto tr398
+		goto tr395
 	st552:
 		if p++; p == pe {
 			goto _test_eof552
 		}
 	st_case_552:
 		switch data[p] {
-		case 45:
+		case 83:
+			goto st553
+		case 115:
 			goto st553
-		case 82:
-			goto st571
-		case 114:
-			goto st571
 		}
-		goto tr398
+		goto tr395
 	st553:
 		if p++; p == pe {
 			goto _test_eof553
 		}
 	st_case_553:
 		switch data[p] {
-		case 65:
+		case 83:
 			goto st554
-		case 97:
+		case 115:
 			goto st554
 		}
-		goto tr398
+		goto tr395
 	st554:
 		if p++; p == pe {
 			goto _test_eof554
 		}
 	st_case_554:
 		switch data[p] {
-		case 83:
+		case 69:
 			goto st555
-		case 115:
+		case 101:
 			goto st555
 		}
-		goto tr398
+		goto tr395
 	st555:
 		if p++; p == pe {
 			goto _test_eof555
 		}
 	st_case_555:
 		switch data[p] {
-		case 83:
+		case 82:
 			goto st556
-		case 115:
+		case 114:
 			goto st556
 		}
-		goto tr398
+		goto tr395
 	st556:
 		if p++; p == pe {
 			goto _test_eof556
 		}
 	st_case_556:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st557
-		case 101:
+		case 116:
 			goto st557
 		}
-		goto tr398
+		goto tr395
 	st557:
 		if p++; p == pe {
 			goto _test_eof557
 		}
 	st_case_557:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st558
-		case 114:
+		case 101:
 			goto st558
 		}
-		goto tr398
+		goto tr395
 	st558:
 		if p++; p == pe {
 			goto _test_eof558
 		}
 	st_case_558:
 		switch data[p] {
-		case 84:
+		case 68:
 			goto st559
-		case 116:
+		case 100:
 			goto st559
 		}
-		goto tr398
+		goto tr395
 	st559:
 		if p++; p == pe {
 			goto _test_eof559
 		}
 	st_case_559:
-		switch data[p] {
-		case 69:
-			goto st560
-		case 101:
+		if data[p] == 45 {
 			goto st560
 		}
-		goto tr398
+		goto tr395
 	st560:
 		if p++; p == pe {
 			goto _test_eof560
 		}
 	st_case_560:
 		switch data[p] {
-		case 68:
+		case 73:
 			goto st561
-		case 100:
+		case 105:
 			goto st561
 		}
-		goto tr398
+		goto tr395
 	st561:
 		if p++; p == pe {
 			goto _test_eof561
 		}
 	st_case_561:
-		if data[p] == 45 {
+		switch data[p] {
+		case 68:
+			goto st562
+		case 100:
 			goto st562
 		}
-		goto tr398
+		goto tr395
 	st562:
 		if p++; p == pe {
 			goto _test_eof562
 		}
 	st_case_562:
 		switch data[p] {
-		case 73:
+		case 69:
 			goto st563
-		case 105:
+		case 101:
 			goto st563
 		}
-		goto tr398
+		goto tr395
 	st563:
 		if p++; p == pe {
 			goto _test_eof563
 		}
 	st_case_563:
 		switch data[p] {
-		case 68:
+		case 78:
 			goto st564
-		case 100:
+		case 110:
 			goto st564
 		}
-		goto tr398
+		goto tr395
 	st564:
 		if p++; p == pe {
 			goto _test_eof564
 		}
 	st_case_564:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st565
-		case 101:
+		case 116:
 			goto st565
 		}
-		goto tr398
+		goto tr395
 	st565:
 		if p++; p == pe {
 			goto _test_eof565
 		}
 	st_case_565:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st566
-		case 110:
+		case 105:
 			goto st566
 		}
-		goto tr398
+		goto tr395
 	st566:
 		if p++; p == pe {
 			goto _test_eof566
@@ -13987,689 +13906,691 @@ tr727:
 		case 116:
 			goto st567
 		}
-		goto tr398
+		goto tr395
 	st567:
 		if p++; p == pe {
 			goto _test_eof567
 		}
 	st_case_567:
 		switch data[p] {
-		case 73:
+		case 89:
 			goto st568
-		case 105:
+		case 121:
 			goto st568
 		}
-		goto tr398
+		goto tr395
 	st568:
 		if p++; p == pe {
 			goto _test_eof568
 		}
 	st_case_568:
 		switch data[p] {
-		case 84:
-			goto st569
-		case 116:
-			goto st569
+		case 9:
+			goto tr759
+		case 32:
+			goto tr759
+		case 58:
+			goto tr760
 		}
-		goto tr398
+		goto tr395
 	st569:
 		if p++; p == pe {
 			goto _test_eof569
 		}
 	st_case_569:
 		switch data[p] {
-		case 89:
+		case 73:
 			goto st570
-		case 121:
+		case 79:
+			goto st576
+		case 105:
 			goto st570
+		case 111:
+			goto st576
 		}
-		goto tr398
+		goto tr395
 	st570:
 		if p++; p == pe {
 			goto _test_eof570
 		}
 	st_case_570:
 		switch data[p] {
-		case 9:
-			goto tr762
-		case 32:
-			goto tr762
-		case 58:
-			goto tr763
+		case 79:
+			goto st571
+		case 111:
+			goto st571
 		}
-		goto tr398
+		goto tr395
 	st571:
 		if p++; p == pe {
 			goto _test_eof571
 		}
 	st_case_571:
 		switch data[p] {
-		case 73:
+		case 82:
 			goto st572
-		case 79:
-			goto st578
-		case 105:
+		case 114:
 			goto st572
-		case 111:
-			goto st578
 		}
-		goto tr398
+		goto tr395
 	st572:
 		if p++; p == pe {
 			goto _test_eof572
 		}
 	st_case_572:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st573
-		case 111:
+		case 105:
 			goto st573
 		}
-		goto tr398
+		goto tr395
 	st573:
 		if p++; p == pe {
 			goto _test_eof573
 		}
 	st_case_573:
 		switch data[p] {
-		case 82:
+		case 84:
 			goto st574
-		case 114:
+		case 116:
 			goto st574
 		}
-		goto tr398
+		goto tr395
 	st574:
 		if p++; p == pe {
 			goto _test_eof574
 		}
 	st_case_574:
 		switch data[p] {
-		case 73:
+		case 89:
 			goto st575
-		case 105:
+		case 121:
 			goto st575
 		}
-		goto tr398
+		goto tr395
 	st575:
 		if p++; p == pe {
 			goto _test_eof575
 		}
 	st_case_575:
 		switch data[p] {
-		case 84:
-			goto st576
-		case 116:
-			goto st576
+		case 9:
+			goto tr768
+		case 32:
+			goto tr768
+		case 58:
+			goto tr769
 		}
-		goto tr398
+		goto tr395
 	st576:
 		if p++; p == pe {
 			goto _test_eof576
 		}
 	st_case_576:
 		switch data[p] {
-		case 89:
+		case 88:
 			goto st577
-		case 121:
+		case 120:
 			goto st577
 		}
-		goto tr398
+		goto tr395
 	st577:
 		if p++; p == pe {
 			goto _test_eof577
 		}
 	st_case_577:
-		switch data[p] {
-		case 9:
-			goto tr771
-		case 32:
-			goto tr771
-		case 58:
-			goto tr772
+		switch data[p] {
+		case 89:
+			goto st578
+		case 121:
+			goto st578
 		}
-		goto tr398
+		goto tr395
 	st578:
 		if p++; p == pe {
 			goto _test_eof578
 		}
 	st_case_578:
-		switch data[p] {
-		case 88:
-			goto st579
-		case 120:
+		if data[p] == 45 {
 			goto st579
 		}
-		goto tr398
+		goto tr395
 	st579:
 		if p++; p == pe {
 			goto _test_eof579
 		}
 	st_case_579:
 		switch data[p] {
-		case 89:
+		case 65:
 			goto st580
-		case 121:
+		case 82:
+			goto st601
+		case 97:
 			goto st580
+		case 114:
+			goto st601
 		}
-		goto tr398
+		goto tr395
 	st580:
 		if p++; p == pe {
 			goto _test_eof580
 		}
 	st_case_580:
-		if data[p] == 45 {
+		switch data[p] {
+		case 85:
+			goto st581
+		case 117:
 			goto st581
 		}
-		goto tr398
+		goto tr395
 	st581:
 		if p++; p == pe {
 			goto _test_eof581
 		}
 	st_case_581:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st582
-		case 82:
-			goto st603
-		case 97:
+		case 116:
 			goto st582
-		case 114:
-			goto st603
 		}
-		goto tr398
+		goto tr395
 	st582:
 		if p++; p == pe {
 			goto _test_eof582
 		}
 	st_case_582:
 		switch data[p] {
-		case 85:
+		case 72:
 			goto st583
-		case 117:
+		case 104:
 			goto st583
 		}
-		goto tr398
+		goto tr395
 	st583:
 		if p++; p == pe {
 			goto _test_eof583
 		}
 	st_case_583:
 		switch data[p] {
-		case 84:
+		case 69:
 			goto st584
-		case 116:
+		case 79:
+			goto st592
+		case 101:
 			goto st584
+		case 111:
+			goto st592
 		}
-		goto tr398
+		goto tr395
 	st584:
 		if p++; p == pe {
 			goto _test_eof584
 		}
 	st_case_584:
 		switch data[p] {
-		case 72:
+		case 78:
 			goto st585
-		case 104:
+		case 110:
 			goto st585
 		}
-		goto tr398
+		goto tr395
 	st585:
 		if p++; p == pe {
 			goto _test_eof585
 		}
 	st_case_585:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st586
-		case 79:
-			goto st594
-		case 101:
+		case 116:
 			goto st586
-		case 111:
-			goto st594
 		}
-		goto tr398
+		goto tr395
 	st586:
 		if p++; p == pe {
 			goto _test_eof586
 		}
 	st_case_586:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st587
-		case 110:
+		case 105:
 			goto st587
 		}
-		goto tr398
+		goto tr395
 	st587:
 		if p++; p == pe {
 			goto _test_eof587
 		}
 	st_case_587:
 		switch data[p] {
-		case 84:
+		case 67:
 			goto st588
-		case 116:
+		case 99:
 			goto st588
 		}
-		goto tr398
+		goto tr395
 	st588:
 		if p++; p == pe {
 			goto _test_eof588
 		}
 	st_case_588:
 		switch data[p] {
-		case 73:
+		case 65:
 			goto st589
-		case 105:
+		case 97:
 			goto st589
 		}
-		goto tr398
+		goto tr395
 	st589:
 		if p++; p == pe {
 			goto _test_eof589
 		}
 	st_case_589:
 		switch data[p] {
-		case 67:
+		case 84:
 			goto st590
-		case 99:
+		case 116:
 			goto st590
 		}
-		goto tr398
+		goto tr395
 	st590:
 		if p++; p == pe {
 			goto _test_eof590
 		}
 	st_case_590:
 		switch data[p] {
-		case 65:
+		case 69:
 			goto st591
-		case 97:
+		case 101:
 			goto st591
 		}
-		goto tr398
+		goto tr395
 	st591:
 		if p++; p == pe {
 			goto _test_eof591
 		}
 	st_case_591:
 		switch data[p] {
-		case 84:
-			goto st592
-		case 116:
-			goto st592
+		case 9:
+			goto tr787
+		case 32:
+			goto tr787
+		case 58:
+			goto tr788
 		}
-		goto tr398
+		goto tr395
 	st592:
 		if p++; p == pe {
 			goto _test_eof592
 		}
 	st_case_592:
 		switch data[p] {
-		case 69:
+		case 82:
 			goto st593
-		case 101:
+		case 114:
 			goto st593
 		}
-		goto tr398
+		goto tr395
 	st593:
 		if p++; p == pe {
 			goto _test_eof593
 		}
 	st_case_593:
 		switch data[p] {
-		case 9:
-			goto tr790
-		case 32:
-			goto tr790
-		case 58:
-			goto tr791
+		case 73:
+			goto st594
+		case 105:
+			goto st594
 		}
-		goto tr398
+		goto tr395
 	st594:
 		if p++; p == pe {
 			goto _test_eof594
 		}
 	st_case_594:
 		switch data[p] {
-		case 82:
+		case 90:
 			goto st595
-		case 114:
+		case 122:
 			goto st595
 		}
-		goto tr398
+		goto tr395
 	st595:
 		if p++; p == pe {
 			goto _test_eof595
 		}
 	st_case_595:
 		switch data[p] {
-		case 73:
+		case 65:
 			goto st596
-		case 105:
+		case 97:
 			goto st596
 		}
-		goto tr398
+		goto tr395
 	st596:
 		if p++; p == pe {
 			goto _test_eof596
 		}
 	st_case_596:
 		switch data[p] {
-		case 90:
+		case 84:
 			goto st597
-		case 122:
+		case 116:
 			goto st597
 		}
-		goto tr398
+		goto tr395
 	st597:
 		if p++; p == pe {
 			goto _test_eof597
 		}
 	st_case_597:
 		switch data[p] {
-		case 65:
+		case 73:
 			goto st598
-		case 97:
+		case 105:
 			goto st598
 		}
-		goto tr398
+		goto tr395
 	st598:
 		if p++; p == pe {
 			goto _test_eof598
 		}
 	st_case_598:
 		switch data[p] {
-		case 84:
+		case 79:
 			goto st599
-		case 116:
+		case 111:
 			goto st599
 		}
-		goto tr398
+		goto tr395
 	st599:
 		if p++; p == pe {
 			goto _test_eof599
 		}
 	st_case_599:
 		switch data[p] {
-		case 73:
+		case 78:
 			goto st600
-		case 105:
+		case 110:
 			goto st600
 		}
-		goto tr398
+		goto tr395
 	st600:
 		if p++; p == pe {
 			goto _test_eof600
 		}
 	st_case_600:
 		switch data[p] {
-		case 79:
-			goto st601
-		case 111:
-			goto st601
+		case 9:
+			goto tr797
+		case 32:
+			goto tr797
+		case 58:
+			goto tr798
 		}
-		goto tr398
+		goto tr395
 	st601:
 		if p++; p == pe {
 			goto _test_eof601
 		}
 	st_case_601:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st602
-		case 110:
+		case 101:
 			goto st602
 		}
-		goto tr398
+		goto tr395
 	st602:
 		if p++; p == pe {
 			goto _test_eof602
 		}
 	st_case_602:
 		switch data[p] {
-		case 9:
-			goto tr800
-		case 32:
-			goto tr800
-		case 58:
-			goto tr801
+		case 81:
+			goto st603
+		case 113:
+			goto st603
 		}
-		goto tr398
+		goto tr395
 	st603:
 		if p++; p == pe {
 			goto _test_eof603
 		}
 	st_case_603:
 		switch data[p] {
-		case 69:
+		case 85:
 			goto st604
-		case 101:
+		case 117:
 			goto st604
 		}
-		goto tr398
+		goto tr395
 	st604:
 		if p++; p == pe {
 			goto _test_eof604
 		}
 	st_case_604:
 		switch data[p] {
-		case 81:
+		case 73:
 			goto st605
-		case 113:
+		case 105:
 			goto st605
 		}
-		goto tr398
+		goto tr395
 	st605:
 		if p++; p == pe {
 			goto _test_eof605
 		}
 	st_case_605:
 		switch data[p] {
-		case 85:
+		case 82:
 			goto st606
-		case 117:
+		case 114:
 			goto st606
 		}
-		goto tr398
+		goto tr395
 	st606:
 		if p++; p == pe {
 			goto _test_eof606
 		}
 	st_case_606:
 		switch data[p] {
-		case 73:
+		case 69:
 			goto st607
-		case 105:
+		case 101:
 			goto st607
 		}
-		goto tr398
+		goto tr395
 	st607:
 		if p++; p == pe {
 			goto _test_eof607
 		}
 	st_case_607:
 		switch data[p] {
-		case 82:
-			goto st608
-		case 114:
-			goto st608
+		case 9:
+			goto tr805
+		case 32:
+			goto tr805
+		case 58:
+			goto tr806
 		}
-		goto tr398
+		goto tr395
 	st608:
 		if p++; p == pe {
 			goto _test_eof608
 		}
 	st_case_608:
 		switch data[p] {
+		case 9:
+			goto tr807
+		case 32:
+			goto tr807
+		case 58:
+			goto tr808
 		case 69:
 			goto st609
+		case 79:
+			goto st664
 		case 101:
 			goto st609
+		case 111:
+			goto st664
 		}
-		goto tr398
+		goto tr395
 	st609:
 		if p++; p == pe {
 			goto _test_eof609
 		}
 	st_case_609:
 		switch data[p] {
-		case 9:
-			goto tr808
-		case 32:
-			goto tr808
-		case 58:
-			goto tr809
+		case 67:
+			goto st610
+		case 70:
+			goto st620
+		case 77:
+			goto st631
+		case 80:
+			goto st644
+		case 81:
+			goto st650
+		case 84:
+			goto st655
+		case 99:
+			goto st610
+		case 102:
+			goto st620
+		case 109:
+			goto st631
+		case 112:
+			goto st644
+		case 113:
+			goto st650
+		case 116:
+			goto st655
 		}
-		goto tr398
+		goto tr395
 	st610:
 		if p++; p == pe {
 			goto _test_eof610
 		}
 	st_case_610:
 		switch data[p] {
-		case 9:
-			goto tr810
-		case 32:
-			goto tr810
-		case 58:
-			goto tr811
-		case 69:
-			goto st611
 		case 79:
-			goto st666
-		case 101:
 			goto st611
 		case 111:
-			goto st666
+			goto st611
 		}
-		goto tr398
+		goto tr395
 	st611:
 		if p++; p == pe {
 			goto _test_eof611
 		}
 	st_case_611:
 		switch data[p] {
-		case 67:
+		case 82:
 			goto st612
-		case 70:
-			goto st622
-		case 77:
-			goto st633
-		case 80:
-			goto st646
-		case 81:
-			goto st652
-		case 84:
-			goto st657
-		case 99:
+		case 114:
 			goto st612
-		case 102:
-			goto st622
-		case 109:
-			goto st633
-		case 112:
-			goto st646
-		case 113:
-			goto st652
-		case 116:
-			goto st657
 		}
-		goto tr398
+		goto tr395
 	st612:
 		if p++; p == pe {
 			goto _test_eof612
 		}
 	st_case_612:
 		switch data[p] {
-		case 79:
+		case 68:
 			goto st613
-		case 111:
+		case 100:
 			goto st613
 		}
-		goto tr398
+		goto tr395
 	st613:
 		if p++; p == pe {
 			goto _test_eof613
 		}
 	st_case_613:
-		switch data[p] {
-		case 82:
-			goto st614
-		case 114:
+		if data[p] == 45 {
 			goto st614
 		}
-		goto tr398
+		goto tr395
 	st614:
 		if p++; p == pe {
 			goto _test_eof614
 		}
 	st_case_614:
 		switch data[p] {
-		case 68:
+		case 82:
 			goto st615
-		case 100:
+		case 114:
 			goto st615
 		}
-		goto tr398
+		goto tr395
 	st615:
 		if p++; p == pe {
 			goto _test_eof615
 		}
 	st_case_615:
-		if data[p] == 45 {
+		switch data[p] {
+		case 79:
+			goto st616
+		case 111:
 			goto st616
 		}
-		goto tr398
+		goto tr395
 	st616:
 		if p++; p == pe {
 			goto _test_eof616
 		}
 	st_case_616:
 		switch data[p] {
-		case 82:
+		case 85:
 			goto st617
-		case 114:
+		case 117:
 			goto st617
 		}
-		goto tr398
+		goto tr395
 	st617:
 		if p++; p == pe {
 			goto _test_eof617
 		}
 	st_case_617:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st618
-		case 111:
+		case 116:
 			goto st618
 		}
-		goto tr398
+		goto tr395
 	st618:
 		if p++; p == pe {
 			goto _test_eof618
 		}
 	st_case_618:
 		switch data[p] {
-		case 85:
+		case 69:
 			goto st619
-		case 117:
+		case 101:
 			goto st619
 		}
-		goto tr398
+		goto tr395
 	st619:
 		if p++; p == pe {
 			goto _test_eof619
 		}
 	st_case_619:
 		switch data[p] {
-		case 84:
-			goto st620
-		case 116:
-			goto st620
+		case 9:
+			goto tr826
+		case 32:
+			goto tr826
+		case 58:
+			goto tr827
 		}
-		goto tr398
+		goto tr395
 	st620:
 		if p++; p == pe {
 			goto _test_eof620
@@ -14681,936 +14602,938 @@ tr727:
 		case 101:
 			goto st621
 		}
-		goto tr398
+		goto tr395
 	st621:
 		if p++; p == pe {
 			goto _test_eof621
 		}
 	st_case_621:
 		switch data[p] {
-		case 9:
-			goto tr829
-		case 32:
-			goto tr829
-		case 58:
-			goto tr830
+		case 82:
+			goto st622
+		case 114:
+			goto st622
 		}
-		goto tr398
+		goto tr395
 	st622:
 		if p++; p == pe {
 			goto _test_eof622
 		}
 	st_case_622:
 		switch data[p] {
-		case 69:
-			goto st623
-		case 101:
+		case 45:
 			goto st623
+		case 82:
+			goto st626
+		case 114:
+			goto st626
 		}
-		goto tr398
+		goto tr395
 	st623:
 		if p++; p == pe {
 			goto _test_eof623
 		}
 	st_case_623:
 		switch data[p] {
-		case 82:
+		case 84:
 			goto st624
-		case 114:
+		case 116:
 			goto st624
 		}
-		goto tr398
+		goto tr395
 	st624:
 		if p++; p == pe {
 			goto _test_eof624
 		}
 	st_case_624:
 		switch data[p] {
-		case 45:
+		case 79:
+			goto st625
+		case 111:
 			goto st625
-		case 82:
-			goto st628
-		case 114:
-			goto st628
 		}
-		goto tr398
+		goto tr395
 	st625:
 		if p++; p == pe {
 			goto _test_eof625
 		}
 	st_case_625:
 		switch data[p] {
-		case 84:
-			goto st626
-		case 116:
-			goto st626
+		case 9:
+			goto tr807
+		case 32:
+			goto tr807
+		case 58:
+			goto tr808
 		}
-		goto tr398
+		goto tr395
 	st626:
 		if p++; p == pe {
 			goto _test_eof626
 		}
 	st_case_626:
 		switch data[p] {
-		case 79:
+		case 69:
 			goto st627
-		case 111:
+		case 101:
 			goto st627
 		}
-		goto tr398
+		goto tr395
 	st627:
 		if p++; p == pe {
 			goto _test_eof627
 		}
 	st_case_627:
 		switch data[p] {
-		case 9:
-			goto tr810
-		case 32:
-			goto tr810
-		case 58:
-			goto tr811
+		case 68:
+			goto st628
+		case 100:
+			goto st628
 		}
-		goto tr398
+		goto tr395
 	st628:
 		if p++; p == pe {
 			goto _test_eof628
 		}
 	st_case_628:
-		switch data[p] {
-		case 69:
-			goto st629
-		case 101:
+		if data[p] == 45 {
 			goto st629
 		}
-		goto tr398
+		goto tr395
 	st629:
 		if p++; p == pe {
 			goto _test_eof629
 		}
 	st_case_629:
 		switch data[p] {
-		case 68:
+		case 66:
 			goto st630
-		case 100:
+		case 98:
 			goto st630
 		}
-		goto tr398
+		goto tr395
 	st630:
 		if p++; p == pe {
 			goto _test_eof630
 		}
 	st_case_630:
-		if data[p] == 45 {
-			goto st631
+		switch data[p] {
+		case 89:
+			goto st352
+		case 121:
+			goto st352
 		}
-		goto tr398
+		goto tr395
 	st631:
 		if p++; p == pe {
 			goto _test_eof631
 		}
 	st_case_631:
 		switch data[p] {
-		case 66:
+		case 79:
 			goto st632
-		case 98:
+		case 111:
 			goto st632
 		}
-		goto tr398
+		goto tr395
 	st632:
 		if p++; p == pe {
 			goto _test_eof632
 		}
 	st_case_632:
 		switch data[p] {
-		case 89:
-			goto st354
-		case 121:
-			goto st354
+		case 84:
+			goto st633
+		case 116:
+			goto st633
 		}
-		goto tr398
+		goto tr395
 	st633:
 		if p++; p == pe {
 			goto _test_eof633
 		}
 	st_case_633:
 		switch data[p] {
-		case 79:
+		case 69:
 			goto st634
-		case 111:
+		case 101:
 			goto st634
 		}
-		goto tr398
+		goto tr395
 	st634:
 		if p++; p == pe {
 			goto _test_eof634
 		}
 	st_case_634:
-		switch data[p] {
-		case 84:
-			goto st635
-		case 116:
+		if data[p] == 45 {
 			goto st635
 		}
-		goto tr398
+		goto tr395
 	st635:
 		if p++; p == pe {
 			goto _test_eof635
 		}
 	st_case_635:
 		switch data[p] {
-		case 69:
+		case 80:
 			goto st636
-		case 101:
+		case 112:
 			goto st636
 		}
-		goto tr398
+		goto tr395
 	st636:
 		if p++; p == pe {
 			goto _test_eof636
 		}
 	st_case_636:
-		if data[p] == 45 {
+		switch data[p] {
+		case 65:
+			goto st637
+		case 97:
 			goto st637
 		}
-		goto tr398
+		goto tr395
 	st637:
 		if p++; p == pe {
 			goto _test_eof637
 		}
 	st_case_637:
 		switch data[p] {
-		case 80:
+		case 82:
 			goto st638
-		case 112:
+		case 114:
 			goto st638
 		}
-		goto tr398
+		goto tr395
 	st638:
 		if p++; p == pe {
 			goto _test_eof638
 		}
 	st_case_638:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st639
-		case 97:
+		case 116:
 			goto st639
 		}
-		goto tr398
+		goto tr395
 	st639:
 		if p++; p == pe {
 			goto _test_eof639
 		}
 	st_case_639:
 		switch data[p] {
-		case 82:
+		case 89:
 			goto st640
-		case 114:
+		case 121:
 			goto st640
 		}
-		goto tr398
+		goto tr395
 	st640:
 		if p++; p == pe {
 			goto _test_eof640
 		}
 	st_case_640:
-		switch data[p] {
-		case 84:
-			goto st641
-		case 116:
+		if data[p] == 45 {
 			goto st641
 		}
-		goto tr398
+		goto tr395
 	st641:
 		if p++; p == pe {
 			goto _test_eof641
 		}
 	st_case_641:
 		switch data[p] {
-		case 89:
+		case 73:
 			goto st642
-		case 121:
+		case 105:
 			goto st642
 		}
-		goto tr398
+		goto tr395
 	st642:
 		if p++; p == pe {
 			goto _test_eof642
 		}
 	st_case_642:
-		if data[p] == 45 {
+		switch data[p] {
+		case 68:
+			goto st643
+		case 100:
 			goto st643
 		}
-		goto tr398
+		goto tr395
 	st643:
 		if p++; p == pe {
 			goto _test_eof643
 		}
 	st_case_643:
 		switch data[p] {
-		case 73:
-			goto st644
-		case 105:
-			goto st644
+		case 9:
+			goto tr850
+		case 32:
+			goto tr850
+		case 58:
+			goto tr851
 		}
-		goto tr398
+		goto tr395
 	st644:
 		if p++; p == pe {
 			goto _test_eof644
 		}
 	st_case_644:
 		switch data[p] {
-		case 68:
+		case 76:
 			goto st645
-		case 100:
+		case 108:
 			goto st645
 		}
-		goto tr398
+		goto tr395
 	st645:
 		if p++; p == pe {
 			goto _test_eof645
 		}
 	st_case_645:
 		switch data[p] {
-		case 9:
-			goto tr853
-		case 32:
-			goto tr853
-		case 58:
-			goto tr854
+		case 89:
+			goto st646
+		case 121:
+			goto st646
 		}
-		goto tr398
+		goto tr395
 	st646:
 		if p++; p == pe {
 			goto _test_eof646
 		}
 	st_case_646:
-		switch data[p] {
-		case 76:
-			goto st647
-		case 108:
+		if data[p] == 45 {
 			goto st647
 		}
-		goto tr398
+		goto tr395
 	st647:
 		if p++; p == pe {
 			goto _test_eof647
 		}
 	st_case_647:
 		switch data[p] {
-		case 89:
+		case 84:
 			goto st648
-		case 121:
+		case 116:
 			goto st648
 		}
-		goto tr398
+		goto tr395
 	st648:
 		if p++; p == pe {
 			goto _test_eof648
 		}
 	st_case_648:
-		if data[p] == 45 {
+		switch data[p] {
+		case 79:
+			goto st649
+		case 111:
 			goto st649
 		}
-		goto tr398
+		goto tr395
 	st649:
 		if p++; p == pe {
 			goto _test_eof649
 		}
 	st_case_649:
 		switch data[p] {
-		case 84:
-			goto st650
-		case 116:
-			goto st650
+		case 9:
+			goto tr857
+		case 32:
+			goto tr857
+		case 58:
+			goto tr858
 		}
-		goto tr398
+		goto tr395
 	st650:
 		if p++; p == pe {
 			goto _test_eof650
 		}
 	st_case_650:
 		switch data[p] {
-		case 79:
+		case 85:
 			goto st651
-		case 111:
+		case 117:
 			goto st651
 		}
-		goto tr398
+		goto tr395
 	st651:
 		if p++; p == pe {
 			goto _test_eof651
 		}
 	st_case_651:
 		switch data[p] {
-		case 9:
-			goto tr860
-		case 32:
-			goto tr860
-		case 58:
-			goto tr861
+		case 73:
+			goto st652
+		case 105:
+			goto st652
 		}
-		goto tr398
+		goto tr395
 	st652:
 		if p++; p == pe {
 			goto _test_eof652
 		}
 	st_case_652:
 		switch data[p] {
-		case 85:
+		case 82:
 			goto st653
-		case 117:
+		case 114:
 			goto st653
 		}
-		goto tr398
+		goto tr395
 	st653:
 		if p++; p == pe {
 			goto _test_eof653
 		}
 	st_case_653:
 		switch data[p] {
-		case 73:
+		case 69:
 			goto st654
-		case 105:
+		case 101:
 			goto st654
 		}
-		goto tr398
+		goto tr395
 	st654:
 		if p++; p == pe {
 			goto _test_eof654
 		}
 	st_case_654:
 		switch data[p] {
-		case 82:
-			goto st655
-		case 114:
-			goto st655
+		case 9:
+			goto tr863
+		case 32:
+			goto tr863
+		case 58:
+			goto tr864
 		}
-		goto tr398
+		goto tr395
 	st655:
 		if p++; p == pe {
 			goto _test_eof655
 		}
 	st_case_655:
 		switch data[p] {
-		case 69:
+		case 82:
 			goto st656
-		case 101:
+		case 114:
 			goto st656
 		}
-		goto tr398
+		goto tr395
 	st656:
 		if p++; p == pe {
 			goto _test_eof656
 		}
 	st_case_656:
 		switch data[p] {
-		case 9:
-			goto tr866
-		case 32:
-			goto tr866
-		case 58:
-			goto tr867
+		case 89:
+			goto st657
+		case 121:
+			goto st657
 		}
-		goto tr398
+		goto tr395
 	st657:
 		if p++; p == pe {
 			goto _test_eof657
 		}
 	st_case_657:
-		switch data[p] {
-		case 82:
-			goto st658
-		case 114:
+		if data[p] == 45 {
 			goto st658
 		}
-		goto tr398
+		goto tr395
 	st658:
 		if p++; p == pe {
 			goto _test_eof658
 		}
 	st_case_658:
 		switch data[p] {
-		case 89:
+		case 65:
 			goto st659
-		case 121:
+		case 97:
 			goto st659
 		}
-		goto tr398
+		goto tr395
 	st659:
 		if p++; p == pe {
 			goto _test_eof659
 		}
 	st_case_659:
-		if data[p] == 45 {
+		switch data[p] {
+		case 70:
+			goto st660
+		case 102:
 			goto st660
 		}
-		goto tr398
+		goto tr395
 	st660:
 		if p++; p == pe {
 			goto _test_eof660
 		}
 	st_case_660:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st661
-		case 97:
+		case 116:
 			goto st661
 		}
-		goto tr398
+		goto tr395
 	st661:
 		if p++; p == pe {
 			goto _test_eof661
 		}
 	st_case_661:
 		switch data[p] {
-		case 70:
+		case 69:
 			goto st662
-		case 102:
+		case 101:
 			goto st662
 		}
-		goto tr398
+		goto tr395
 	st662:
 		if p++; p == pe {
 			goto _test_eof662
 		}
 	st_case_662:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st663
-		case 116:
+		case 114:
 			goto st663
 		}
-		goto tr398
+		goto tr395
 	st663:
 		if p++; p == pe {
 			goto _test_eof663
 		}
 	st_case_663:
 		switch data[p] {
-		case 69:
-			goto st664
-		case 101:
-			goto st664
+		case 9:
+			goto tr873
+		case 32:
+			goto tr873
+		case 58:
+			goto tr874
 		}
-		goto tr398
+		goto tr395
 	st664:
 		if p++; p == pe {
 			goto _test_eof664
 		}
 	st_case_664:
 		switch data[p] {
-		case 82:
+		case 85:
 			goto st665
-		case 114:
+		case 117:
 			goto st665
 		}
-		goto tr398
+		goto tr395
 	st665:
 		if p++; p == pe {
 			goto _test_eof665
 		}
 	st_case_665:
 		switch data[p] {
-		case 9:
-			goto tr876
-		case 32:
-			goto tr876
-		case 58:
-			goto tr877
+		case 84:
+			goto st666
+		case 116:
+			goto st666
 		}
-		goto tr398
+		goto tr395
 	st666:
 		if p++; p == pe {
 			goto _test_eof666
 		}
 	st_case_666:
 		switch data[p] {
-		case 85:
+		case 69:
 			goto st667
-		case 117:
+		case 101:
 			goto st667
 		}
-		goto tr398
+		goto tr395
 	st667:
 		if p++; p == pe {
 			goto _test_eof667
 		}
 	st_case_667:
-		switch data[p] {
-		case 84:
-			goto st668
-		case 116:
-			goto st668
+		switch data[p] {
+		case 9:
+			goto tr878
+		case 32:
+			goto tr878
+		case 58:
+			goto tr879
 		}
-		goto tr398
+		goto tr395
 	st668:
 		if p++; p == pe {
 			goto _test_eof668
 		}
 	st_case_668:
 		switch data[p] {
+		case 9:
+			goto tr880
+		case 32:
+			goto tr880
+		case 58:
+			goto tr881
 		case 69:
 			goto st669
+		case 85:
+			goto st674
 		case 101:
 			goto st669
+		case 117:
+			goto st674
 		}
-		goto tr398
+		goto tr395
 	st669:
 		if p++; p == pe {
 			goto _test_eof669
 		}
 	st_case_669:
 		switch data[p] {
-		case 9:
-			goto tr881
-		case 32:
-			goto tr881
-		case 58:
-			goto tr882
+		case 82:
+			goto st670
+		case 114:
+			goto st670
 		}
-		goto tr398
+		goto tr395
 	st670:
 		if p++; p == pe {
 			goto _test_eof670
 		}
 	st_case_670:
 		switch data[p] {
-		case 9:
-			goto tr883
-		case 32:
-			goto tr883
-		case 58:
-			goto tr884
-		case 69:
+		case 86:
 			goto st671
-		case 85:
-			goto st676
-		case 101:
+		case 118:
 			goto st671
-		case 117:
-			goto st676
 		}
-		goto tr398
+		goto tr395
 	st671:
 		if p++; p == pe {
 			goto _test_eof671
 		}
 	st_case_671:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st672
-		case 114:
+		case 101:
 			goto st672
 		}
-		goto tr398
+		goto tr395
 	st672:
 		if p++; p == pe {
 			goto _test_eof672
 		}
 	st_case_672:
 		switch data[p] {
-		case 86:
+		case 82:
 			goto st673
-		case 118:
+		case 114:
 			goto st673
 		}
-		goto tr398
+		goto tr395
 	st673:
 		if p++; p == pe {
 			goto _test_eof673
 		}
 	st_case_673:
 		switch data[p] {
-		case 69:
-			goto st674
-		case 101:
-			goto st674
+		case 9:
+			goto tr888
+		case 32:
+			goto tr888
+		case 58:
+			goto tr889
 		}
-		goto tr398
+		goto tr395
 	st674:
 		if p++; p == pe {
 			goto _test_eof674
 		}
 	st_case_674:
 		switch data[p] {
-		case 82:
+		case 66:
 			goto st675
-		case 114:
+		case 80:
+			goto st680
+		case 98:
 			goto st675
+		case 112:
+			goto st680
 		}
-		goto tr398
+		goto tr395
 	st675:
 		if p++; p == pe {
 			goto _test_eof675
 		}
 	st_case_675:
 		switch data[p] {
-		case 9:
-			goto tr891
-		case 32:
-			goto tr891
-		case 58:
-			goto tr892
+		case 74:
+			goto st676
+		case 106:
+			goto st676
 		}
-		goto tr398
+		goto tr395
 	st676:
 		if p++; p == pe {
 			goto _test_eof676
 		}
 	st_case_676:
 		switch data[p] {
-		case 66:
+		case 69:
 			goto st677
-		case 80:
-			goto st682
-		case 98:
+		case 101:
 			goto st677
-		case 112:
-			goto st682
 		}
-		goto tr398
+		goto tr395
 	st677:
 		if p++; p == pe {
 			goto _test_eof677
 		}
 	st_case_677:
 		switch data[p] {
-		case 74:
+		case 67:
 			goto st678
-		case 106:
+		case 99:
 			goto st678
 		}
-		goto tr398
+		goto tr395
 	st678:
 		if p++; p == pe {
 			goto _test_eof678
 		}
 	st_case_678:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st679
-		case 101:
+		case 116:
 			goto st679
 		}
-		goto tr398
+		goto tr395
 	st679:
 		if p++; p == pe {
 			goto _test_eof679
 		}
 	st_case_679:
 		switch data[p] {
-		case 67:
-			goto st680
-		case 99:
-			goto st680
+		case 9:
+			goto tr880
+		case 32:
+			goto tr880
+		case 58:
+			goto tr881
 		}
-		goto tr398
+		goto tr395
 	st680:
 		if p++; p == pe {
 			goto _test_eof680
 		}
 	st_case_680:
 		switch data[p] {
-		case 84:
+		case 80:
 			goto st681
-		case 116:
+		case 112:
 			goto st681
 		}
-		goto tr398
+		goto tr395
 	st681:
 		if p++; p == pe {
 			goto _test_eof681
 		}
 	st_case_681:
 		switch data[p] {
-		case 9:
-			goto tr883
-		case 32:
-			goto tr883
-		case 58:
-			goto tr884
+		case 79:
+			goto st682
+		case 111:
+			goto st682
 		}
-		goto tr398
+		goto tr395
 	st682:
 		if p++; p == pe {
 			goto _test_eof682
 		}
 	st_case_682:
 		switch data[p] {
-		case 80:
+		case 82:
 			goto st683
-		case 112:
+		case 114:
 			goto st683
 		}
-		goto tr398
+		goto tr395
 	st683:
 		if p++; p == pe {
 			goto _test_eof683
 		}
 	st_case_683:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st684
-		case 111:
+		case 116:
 			goto st684
 		}
-		goto tr398
+		goto tr395
 	st684:
 		if p++; p == pe {
 			goto _test_eof684
 		}
 	st_case_684:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st685
-		case 114:
+		case 101:
 			goto st685
 		}
-		goto tr398
+		goto tr395
 	st685:
 		if p++; p == pe {
 			goto _test_eof685
 		}
 	st_case_685:
 		switch data[p] {
-		case 84:
-			goto st686
-		case 116:
-			goto st686
+		case 68:
+			goto st493
+		case 100:
+			goto st493
 		}
-		goto tr398
+		goto tr395
 	st686:
 		if p++; p == pe {
 			goto _test_eof686
 		}
 	st_case_686:
 		switch data[p] {
-		case 69:
+		case 9:
+			goto tr901
+		case 32:
+			goto tr901
+		case 58:
+			goto tr902
+		case 73:
 			goto st687
-		case 101:
+		case 79:
+			goto st695
+		case 105:
 			goto st687
+		case 111:
+			goto st695
 		}
-		goto tr398
+		goto tr395
 	st687:
 		if p++; p == pe {
 			goto _test_eof687
 		}
 	st_case_687:
 		switch data[p] {
-		case 68:
-			goto st495
-		case 100:
-			goto st495
+		case 77:
+			goto st688
+		case 109:
+			goto st688
 		}
-		goto tr398
+		goto tr395
 	st688:
 		if p++; p == pe {
 			goto _test_eof688
 		}
 	st_case_688:
 		switch data[p] {
-		case 9:
-			goto tr904
-		case 32:
-			goto tr904
-		case 58:
-			goto tr905
-		case 73:
+		case 69:
 			goto st689
-		case 79:
-			goto st697
-		case 105:
+		case 101:
 			goto st689
-		case 111:
-			goto st697
 		}
-		goto tr398
+		goto tr395
 	st689:
 		if p++; p == pe {
 			goto _test_eof689
 		}
 	st_case_689:
 		switch data[p] {
-		case 77:
+		case 83:
 			goto st690
-		case 109:
+		case 115:
 			goto st690
 		}
-		goto tr398
+		goto tr395
 	st690:
 		if p++; p == pe {
 			goto _test_eof690
 		}
 	st_case_690:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st691
-		case 101:
+		case 116:
 			goto st691
 		}
-		goto tr398
+		goto tr395
 	st691:
 		if p++; p == pe {
 			goto _test_eof691
 		}
 	st_case_691:
 		switch data[p] {
-		case 83:
+		case 65:
 			goto st692
-		case 115:
+		case 97:
 			goto st692
 		}
-		goto tr398
+		goto tr395
 	st692:
 		if p++; p == pe {
 			goto _test_eof692
 		}
 	st_case_692:
 		switch data[p] {
-		case 84:
+		case 77:
 			goto st693
-		case 116:
+		case 109:
 			goto st693
 		}
-		goto tr398
+		goto tr395
 	st693:
 		if p++; p == pe {
 			goto _test_eof693
 		}
 	st_case_693:
 		switch data[p] {
-		case 65:
+		case 80:
 			goto st694
-		case 97:
+		case 112:
 			goto st694
 		}
-		goto tr398
+		goto tr395
 	st694:
 		if p++; p == pe {
 			goto _test_eof694
 		}
 	st_case_694:
 		switch data[p] {
-		case 77:
-			goto st695
-		case 109:
-			goto st695
+		case 9:
+			goto tr912
+		case 32:
+			goto tr912
+		case 58:
+			goto tr913
 		}
-		goto tr398
+		goto tr395
 	st695:
 		if p++; p == pe {
 			goto _test_eof695
 		}
 	st_case_695:
 		switch data[p] {
-		case 80:
-			goto st696
-		case 112:
-			goto st696
+		case 9:
+			goto tr901
+		case 32:
+			goto tr901
+		case 58:
+			goto tr902
 		}
-		goto tr398
+		goto tr395
 	st696:
 		if p++; p == pe {
 			goto _test_eof696
@@ -15618,264 +15541,268 @@ tr727:
 	st_case_696:
 		switch data[p] {
 		case 9:
-			goto tr915
+			goto tr914
 		case 32:
-			goto tr915
+			goto tr914
 		case 58:
-			goto tr916
+			goto tr915
+		case 78:
+			goto st697
+		case 83:
+			goto st707
+		case 110:
+			goto st697
+		case 115:
+			goto st707
 		}
-		goto tr398
+		goto tr395
 	st697:
 		if p++; p == pe {
 			goto _test_eof697
 		}
 	st_case_697:
 		switch data[p] {
-		case 9:
-			goto tr904
-		case 32:
-			goto tr904
-		case 58:
-			goto tr905
+		case 83:
+			goto st698
+		case 115:
+			goto st698
 		}
-		goto tr398
+		goto tr395
 	st698:
 		if p++; p == pe {
 			goto _test_eof698
 		}
 	st_case_698:
 		switch data[p] {
-		case 9:
-			goto tr917
-		case 32:
-			goto tr917
-		case 58:
-			goto tr918
-		case 78:
+		case 85:
 			goto st699
-		case 83:
-			goto st709
-		case 110:
+		case 117:
 			goto st699
-		case 115:
-			goto st709
 		}
-		goto tr398
+		goto tr395
 	st699:
 		if p++; p == pe {
 			goto _test_eof699
 		}
 	st_case_699:
 		switch data[p] {
-		case 83:
+		case 80:
 			goto st700
-		case 115:
+		case 112:
 			goto st700
 		}
-		goto tr398
+		goto tr395
 	st700:
 		if p++; p == pe {
 			goto _test_eof700
 		}
 	st_case_700:
 		switch data[p] {
-		case 85:
+		case 80:
 			goto st701
-		case 117:
+		case 112:
 			goto st701
 		}
-		goto tr398
+		goto tr395
 	st701:
 		if p++; p == pe {
 			goto _test_eof701
 		}
 	st_case_701:
 		switch data[p] {
-		case 80:
+		case 79:
 			goto st702
-		case 112:
+		case 111:
 			goto st702
 		}
-		goto tr398
+		goto tr395
 	st702:
 		if p++; p == pe {
 			goto _test_eof702
 		}
 	st_case_702:
 		switch data[p] {
-		case 80:
+		case 82:
 			goto st703
-		case 112:
+		case 114:
 			goto st703
 		}
-		goto tr398
+		goto tr395
 	st703:
 		if p++; p == pe {
 			goto _test_eof703
 		}
 	st_case_703:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st704
-		case 111:
+		case 116:
 			goto st704
 		}
-		goto tr398
+		goto tr395
 	st704:
 		if p++; p == pe {
 			goto _test_eof704
 		}
 	st_case_704:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st705
-		case 114:
+		case 101:
 			goto st705
 		}
-		goto tr398
+		goto tr395
 	st705:
 		if p++; p == pe {
 			goto _test_eof705
 		}
 	st_case_705:
 		switch data[p] {
-		case 84:
+		case 68:
 			goto st706
-		case 116:
+		case 100:
 			goto st706
 		}
-		goto tr398
+		goto tr395
 	st706:
 		if p++; p == pe {
 			goto _test_eof706
 		}
 	st_case_706:
 		switch data[p] {
-		case 69:
-			goto st707
-		case 101:
-			goto st707
+		case 9:
+			goto tr927
+		case 32:
+			goto tr927
+		case 58:
+			goto tr928
 		}
-		goto tr398
+		goto tr395
 	st707:
 		if p++; p == pe {
 			goto _test_eof707
 		}
 	st_case_707:
 		switch data[p] {
-		case 68:
+		case 69:
 			goto st708
-		case 100:
+		case 101:
 			goto st708
 		}
-		goto tr398
+		goto tr395
 	st708:
 		if p++; p == pe {
 			goto _test_eof708
 		}
 	st_case_708:
 		switch data[p] {
-		case 9:
-			goto tr930
-		case 32:
-			goto tr930
-		case 58:
-			goto tr931
+		case 82:
+			goto st709
+		case 114:
+			goto st709
 		}
-		goto tr398
+		goto tr395
 	st709:
 		if p++; p == pe {
 			goto _test_eof709
 		}
 	st_case_709:
-		switch data[p] {
-		case 69:
-			goto st710
-		case 101:
+		if data[p] == 45 {
 			goto st710
 		}
-		goto tr398
+		goto tr395
 	st710:
 		if p++; p == pe {
 			goto _test_eof710
 		}
 	st_case_710:
 		switch data[p] {
-		case 82:
+		case 65:
 			goto st711
-		case 114:
+		case 97:
 			goto st711
 		}
-		goto tr398
+		goto tr395
 	st711:
 		if p++; p == pe {
 			goto _test_eof711
 		}
 	st_case_711:
-		if data[p] == 45 {
+		switch data[p] {
+		case 71:
+			goto st712
+		case 103:
 			goto st712
 		}
-		goto tr398
+		goto tr395
 	st712:
 		if p++; p == pe {
 			goto _test_eof712
 		}
 	st_case_712:
 		switch data[p] {
-		case 65:
+		case 69:
 			goto st713
-		case 97:
+		case 101:
 			goto st713
 		}
-		goto tr398
+		goto tr395
 	st713:
 		if p++; p == pe {
 			goto _test_eof713
 		}
 	st_case_713:
 		switch data[p] {
-		case 71:
+		case 78:
 			goto st714
-		case 103:
+		case 110:
 			goto st714
 		}
-		goto tr398
+		goto tr395
 	st714:
 		if p++; p == pe {
 			goto _test_eof714
 		}
 	st_case_714:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st715
-		case 101:
+		case 116:
 			goto st715
 		}
-		goto tr398
+		goto tr395
 	st715:
 		if p++; p == pe {
 			goto _test_eof715
 		}
 	st_case_715:
 		switch data[p] {
-		case 78:
-			goto st716
-		case 110:
-			goto st716
+		case 9:
+			goto tr937
+		case 32:
+			goto tr937
+		case 58:
+			goto tr938
 		}
-		goto tr398
+		goto tr395
 	st716:
 		if p++; p == pe {
 			goto _test_eof716
 		}
 	st_case_716:
 		switch data[p] {
-		case 84:
+		case 9:
 			goto st717
-		case 116:
+		case 32:
 			goto st717
+		case 58:
+			goto st718
+		case 73:
+			goto st722
+		case 105:
+			goto st722
 		}
-		goto tr398
+		goto tr395
 	st717:
 		if p++; p == pe {
 			goto _test_eof717
@@ -15883,42 +15810,50 @@ tr727:
 	st_case_717:
 		switch data[p] {
 		case 9:
-			goto tr940
+			goto st717
 		case 32:
-			goto tr940
+			goto st717
 		case 58:
-			goto tr941
+			goto st718
 		}
-		goto tr398
+		goto st0
 	st718:
 		if p++; p == pe {
 			goto _test_eof718
 		}
 	st_case_718:
-		switch data[p] {
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		switch _widec {
 		case 9:
-			goto st719
+			goto st718
 		case 32:
+			goto st718
+		case 269:
+			goto tr942
+		case 525:
 			goto st719
-		case 58:
-			goto st720
-		case 73:
-			goto st724
-		case 105:
-			goto st724
 		}
-		goto tr398
+		switch {
+		case _widec > 12:
+			if 14 <= _widec {
+				goto tr942
+			}
+		default:
+			goto tr942
+		}
+		goto st0
 	st719:
 		if p++; p == pe {
 			goto _test_eof719
 		}
 	st_case_719:
-		switch data[p] {
-		case 9:
-			goto st719
-		case 32:
-			goto st719
-		case 58:
+		if data[p] == 10 {
 			goto st720
 		}
 		goto st0
@@ -15927,53 +15862,37 @@ tr727:
 			goto _test_eof720
 		}
 	st_case_720:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
+		switch data[p] {
 		case 9:
-			goto st720
+			goto st721
 		case 32:
-			goto st720
-		case 269:
-			goto tr945
-		case 525:
 			goto st721
 		}
-		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr945
-			}
-		default:
-			goto tr945
-		}
 		goto st0
 	st721:
 		if p++; p == pe {
 			goto _test_eof721
 		}
 	st_case_721:
-		if data[p] == 10 {
-			goto st722
+		switch data[p] {
+		case 9:
+			goto st721
+		case 32:
+			goto st721
 		}
-		goto st0
+		goto tr942
 	st722:
 		if p++; p == pe {
 			goto _test_eof722
 		}
 	st_case_722:
 		switch data[p] {
-		case 9:
+		case 65:
 			goto st723
-		case 32:
+		case 97:
 			goto st723
 		}
-		goto st0
+		goto tr395
 	st723:
 		if p++; p == pe {
 			goto _test_eof723
@@ -15981,11 +15900,13 @@ tr727:
 	st_case_723:
 		switch data[p] {
 		case 9:
-			goto st723
+			goto st717
 		case 32:
-			goto st723
+			goto st717
+		case 58:
+			goto st718
 		}
-		goto tr945
+		goto tr395
 	st724:
 		if p++; p == pe {
 			goto _test_eof724
@@ -15994,52 +15915,50 @@ tr727:
 		switch data[p] {
 		case 65:
 			goto st725
+		case 87:
+			goto st731
 		case 97:
 			goto st725
+		case 119:
+			goto st731
 		}
-		goto tr398
+		goto tr395
 	st725:
 		if p++; p == pe {
 			goto _test_eof725
 		}
 	st_case_725:
 		switch data[p] {
-		case 9:
-			goto st719
-		case 32:
-			goto st719
-		case 58:
-			goto st720
+		case 82:
+			goto st726
+		case 114:
+			goto st726
 		}
-		goto tr398
+		goto tr395
 	st726:
 		if p++; p == pe {
 			goto _test_eof726
 		}
 	st_case_726:
 		switch data[p] {
-		case 65:
+		case 78:
 			goto st727
-		case 87:
-			goto st733
-		case 97:
+		case 110:
 			goto st727
-		case 119:
-			goto st733
 		}
-		goto tr398
+		goto tr395
 	st727:
 		if p++; p == pe {
 			goto _test_eof727
 		}
 	st_case_727:
 		switch data[p] {
-		case 82:
+		case 73:
 			goto st728
-		case 114:
+		case 105:
 			goto st728
 		}
-		goto tr398
+		goto tr395
 	st728:
 		if p++; p == pe {
 			goto _test_eof728
@@ -16051,236 +15970,212 @@ tr727:
 		case 110:
 			goto st729
 		}
-		goto tr398
+		goto tr395
 	st729:
 		if p++; p == pe {
 			goto _test_eof729
 		}
 	st_case_729:
 		switch data[p] {
-		case 73:
+		case 71:
 			goto st730
-		case 105:
+		case 103:
 			goto st730
 		}
-		goto tr398
+		goto tr395
 	st730:
 		if p++; p == pe {
 			goto _test_eof730
 		}
 	st_case_730:
 		switch data[p] {
-		case 78:
-			goto st731
-		case 110:
-			goto st731
+		case 9:
+			goto tr954
+		case 32:
+			goto tr954
+		case 58:
+			goto tr955
 		}
-		goto tr398
+		goto tr395
 	st731:
 		if p++; p == pe {
 			goto _test_eof731
 		}
 	st_case_731:
 		switch data[p] {
-		case 71:
+		case 87:
 			goto st732
-		case 103:
+		case 119:
 			goto st732
 		}
-		goto tr398
+		goto tr395
 	st732:
 		if p++; p == pe {
 			goto _test_eof732
 		}
 	st_case_732:
-		switch data[p] {
-		case 9:
-			goto tr957
-		case 32:
-			goto tr957
-		case 58:
-			goto tr958
+		if data[p] == 45 {
+			goto st733
 		}
-		goto tr398
+		goto tr395
 	st733:
 		if p++; p == pe {
 			goto _test_eof733
 		}
 	st_case_733:
 		switch data[p] {
-		case 87:
+		case 65:
 			goto st734
-		case 119:
+		case 97:
 			goto st734
 		}
-		goto tr398
+		goto tr395
 	st734:
 		if p++; p == pe {
 			goto _test_eof734
 		}
 	st_case_734:
-		if data[p] == 45 {
+		switch data[p] {
+		case 85:
+			goto st735
+		case 117:
 			goto st735
 		}
-		goto tr398
+		goto tr395
 	st735:
 		if p++; p == pe {
 			goto _test_eof735
 		}
 	st_case_735:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st736
-		case 97:
+		case 116:
 			goto st736
 		}
-		goto tr398
+		goto tr395
 	st736:
 		if p++; p == pe {
 			goto _test_eof736
 		}
 	st_case_736:
 		switch data[p] {
-		case 85:
+		case 72:
 			goto st737
-		case 117:
+		case 104:
 			goto st737
 		}
-		goto tr398
+		goto tr395
 	st737:
 		if p++; p == pe {
 			goto _test_eof737
 		}
 	st_case_737:
 		switch data[p] {
-		case 84:
+		case 69:
 			goto st738
-		case 116:
+		case 101:
 			goto st738
 		}
-		goto tr398
+		goto tr395
 	st738:
 		if p++; p == pe {
 			goto _test_eof738
 		}
 	st_case_738:
 		switch data[p] {
-		case 72:
+		case 78:
 			goto st739
-		case 104:
+		case 110:
 			goto st739
 		}
-		goto tr398
+		goto tr395
 	st739:
 		if p++; p == pe {
 			goto _test_eof739
 		}
 	st_case_739:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st740
-		case 101:
+		case 116:
 			goto st740
 		}
-		goto tr398
+		goto tr395
 	st740:
 		if p++; p == pe {
 			goto _test_eof740
 		}
 	st_case_740:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st741
-		case 110:
+		case 105:
 			goto st741
 		}
-		goto tr398
+		goto tr395
 	st741:
 		if p++; p == pe {
 			goto _test_eof741
 		}
 	st_case_741:
 		switch data[p] {
-		case 84:
+		case 67:
 			goto st742
-		case 116:
+		case 99:
 			goto st742
 		}
-		goto tr398
+		goto tr395
 	st742:
 		if p++; p == pe {
 			goto _test_eof742
 		}
 	st_case_742:
 		switch data[p] {
-		case 73:
+		case 65:
 			goto st743
-		case 105:
+		case 97:
 			goto st743
 		}
-		goto tr398
+		goto tr395
 	st743:
 		if p++; p == pe {
 			goto _test_eof743
 		}
 	st_case_743:
 		switch data[p] {
-		case 67:
+		case 84:
 			goto st744
-		case 99:
+		case 116:
 			goto st744
 		}
-		goto tr398
+		goto tr395
 	st744:
 		if p++; p == pe {
 			goto _test_eof744
 		}
 	st_case_744:
 		switch data[p] {
-		case 65:
+		case 69:
 			goto st745
-		case 97:
+		case 101:
 			goto st745
 		}
-		goto tr398
+		goto tr395
 	st745:
 		if p++; p == pe {
 			goto _test_eof745
 		}
 	st_case_745:
-		switch data[p] {
-		case 84:
-			goto st746
-		case 116:
-			goto st746
-		}
-		goto tr398
-	st746:
-		if p++; p == pe {
-			goto _test_eof746
-		}
-	st_case_746:
-		switch data[p] {
-		case 69:
-			goto st747
-		case 101:
-			goto st747
-		}
-		goto tr398
-	st747:
-		if p++; p == pe {
-			goto _test_eof747
-		}
-	st_case_747:
 		switch data[p] {
 		case 9:
-			goto tr973
+			goto tr970
 		case 32:
-			goto tr973
+			goto tr970
 		case 58:
-			goto tr974
+			goto tr971
 		}
-		goto tr398
+		goto tr395
 	st_out:
 	_test_eof2: cs = 2; goto _test_eof
 	_test_eof3: cs = 3; goto _test_eof
@@ -16294,7 +16189,7 @@ tr727:
 	_test_eof11: cs = 11; goto _test_eof
 	_test_eof12: cs = 12; goto _test_eof
 	_test_eof13: cs = 13; goto _test_eof
-	_test_eof748: cs = 748; goto _test_eof
+	_test_eof746: cs = 746; goto _test_eof
 	_test_eof14: cs = 14; goto _test_eof
 	_test_eof15: cs = 15; goto _test_eof
 	_test_eof16: cs = 16; goto _test_eof
@@ -16326,7 +16221,7 @@ tr727:
 	_test_eof42: cs = 42; goto _test_eof
 	_test_eof43: cs = 43; goto _test_eof
 	_test_eof44: cs = 44; goto _test_eof
-	_test_eof749: cs = 749; goto _test_eof
+	_test_eof747: cs = 747; goto _test_eof
 	_test_eof45: cs = 45; goto _test_eof
 	_test_eof46: cs = 46; goto _test_eof
 	_test_eof47: cs = 47; goto _test_eof
@@ -16354,7 +16249,7 @@ tr727:
 	_test_eof69: cs = 69; goto _test_eof
 	_test_eof70: cs = 70; goto _test_eof
 	_test_eof71: cs = 71; goto _test_eof
-	_test_eof750: cs = 750; goto _test_eof
+	_test_eof748: cs = 748; goto _test_eof
 	_test_eof72: cs = 72; goto _test_eof
 	_test_eof73: cs = 73; goto _test_eof
 	_test_eof74: cs = 74; goto _test_eof
@@ -16398,7 +16293,7 @@ tr727:
 	_test_eof112: cs = 112; goto _test_eof
 	_test_eof113: cs = 113; goto _test_eof
 	_test_eof114: cs = 114; goto _test_eof
-	_test_eof751: cs = 751; goto _test_eof
+	_test_eof749: cs = 749; goto _test_eof
 	_test_eof115: cs = 115; goto _test_eof
 	_test_eof116: cs = 116; goto _test_eof
 	_test_eof117: cs = 117; goto _test_eof
@@ -16441,7 +16336,7 @@ tr727:
 	_test_eof154: cs = 154; goto _test_eof
 	_test_eof155: cs = 155; goto _test_eof
 	_test_eof156: cs = 156; goto _test_eof
-	_test_eof752: cs = 752; goto _test_eof
+	_test_eof750: cs = 750; goto _test_eof
 	_test_eof157: cs = 157; goto _test_eof
 	_test_eof158: cs = 158; goto _test_eof
 	_test_eof159: cs = 159; goto _test_eof
@@ -16481,7 +16376,7 @@ tr727:
 	_test_eof193: cs = 193; goto _test_eof
 	_test_eof194: cs = 194; goto _test_eof
 	_test_eof195: cs = 195; goto _test_eof
-	_test_eof753: cs = 753; goto _test_eof
+	_test_eof751: cs = 751; goto _test_eof
 	_test_eof196: cs = 196; goto _test_eof
 	_test_eof197: cs = 197; goto _test_eof
 	_test_eof198: cs = 198; goto _test_eof
@@ -16520,8 +16415,8 @@ tr727:
 	_test_eof231: cs = 231; goto _test_eof
 	_test_eof232: cs = 232; goto _test_eof
 	_test_eof233: cs = 233; goto _test_eof
+	_test_eof752: cs = 752; goto _test_eof
 	_test_eof234: cs = 234; goto _test_eof
-	_test_eof754: cs = 754; goto _test_eof
 	_test_eof235: cs = 235; goto _test_eof
 	_test_eof236: cs = 236; goto _test_eof
 	_test_eof237: cs = 237; goto _test_eof
@@ -16534,9 +16429,9 @@ tr727:
 	_test_eof244: cs = 244; goto _test_eof
 	_test_eof245: cs = 245; goto _test_eof
 	_test_eof246: cs = 246; goto _test_eof
+	_test_eof753: cs = 753; goto _test_eof
 	_test_eof247: cs = 247; goto _test_eof
 	_test_eof248: cs = 248; goto _test_eof
-	_test_eof755: cs = 755; goto _test_eof
 	_test_eof249: cs = 249; goto _test_eof
 	_test_eof250: cs = 250; goto _test_eof
 	_test_eof251: cs = 251; goto _test_eof
@@ -16547,22 +16442,22 @@ tr727:
 	_test_eof256: cs = 256; goto _test_eof
 	_test_eof257: cs = 257; goto _test_eof
 	_test_eof258: cs = 258; goto _test_eof
+	_test_eof754: cs = 754; goto _test_eof
 	_test_eof259: cs = 259; goto _test_eof
 	_test_eof260: cs = 260; goto _test_eof
-	_test_eof756: cs = 756; goto _test_eof
 	_test_eof261: cs = 261; goto _test_eof
 	_test_eof262: cs = 262; goto _test_eof
 	_test_eof263: cs = 263; goto _test_eof
 	_test_eof264: cs = 264; goto _test_eof
+	_test_eof755: cs = 755; goto _test_eof
 	_test_eof265: cs = 265; goto _test_eof
 	_test_eof266: cs = 266; goto _test_eof
-	_test_eof757: cs = 757; goto _test_eof
 	_test_eof267: cs = 267; goto _test_eof
 	_test_eof268: cs = 268; goto _test_eof
 	_test_eof269: cs = 269; goto _test_eof
+	_test_eof756: cs = 756; goto _test_eof
 	_test_eof270: cs = 270; goto _test_eof
 	_test_eof271: cs = 271; goto _test_eof
-	_test_eof758: cs = 758; goto _test_eof
 	_test_eof272: cs = 272; goto _test_eof
 	_test_eof273: cs = 273; goto _test_eof
 	_test_eof274: cs = 274; goto _test_eof
@@ -17037,20 +16932,18 @@ tr727:
 	_test_eof743: cs = 743; goto _test_eof
 	_test_eof744: cs = 744; goto _test_eof
 	_test_eof745: cs = 745; goto _test_eof
-	_test_eof746: cs = 746; goto _test_eof
-	_test_eof747: cs = 747; goto _test_eof
 
 	_test_eof: {}
 	if p == eof {
 		switch cs {
-		case 272, 273, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 361, 362, 363, 364, 365, 366, 376, 377, 378, 379, 380, 381, 382, 383, 384, 390, 391, 392, 393, 394, 395, 396, 397, 398, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 432, 433, 434, 435, 436, 437, 438, 450, 451, 452, 453, 454, 455, 456, 457, 458, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 480, 481, 482, 483, 484, 485, 486, 487, 488, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 514, 515, 516, 517, 518, 519, 520, 521, 522, 523, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 540, 541, 542, 543, 544, 545, 546, 547, 548, 549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 724, 725, 726, 727, 728, 729, 730, 731, 732, 733, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746, 747:
+		case 270, 271, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 359, 360, 361, 362, 363, 364, 374, 375, 376, 377, 378, 379, 380, 381, 382, 388, 389, 390, 391, 392, 393, 394, 395, 396, 397, 398, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 430, 431, 432, 433, 434, 435, 436, 448, 449, 450, 451, 452, 453, 454, 455, 456, 457, 458, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 478, 479, 480, 481, 482, 483, 484, 485, 486, 487, 488, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 512, 513, 514, 515, 516, 517, 518, 519, 520, 521, 522, 523, 524, 525, 526, 527, 528, 529, 530, 531, 538, 539, 540, 541, 542, 543, 544, 545, 546, 547, 548, 549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 722, 723, 724, 725, 726, 727, 728, 729, 730, 731, 732, 733, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745:
 //line sip.rl:180
 
 	p = ( mark) - 1
 
-	{goto st263 }
+	{goto st261 }
 
-//line msg_parse.go:17045
+//line msg_parse.go:16938
 		}
 	}
 
diff --git a/sip/sip.rl b/sip/sip.rl
index 0ba25b8..cea262b 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -364,7 +364,7 @@ qdtext          = UTF8_NONASCII | LWS_append | qdtextc @append;
 quoted_pair     = "\\" ( 0x00..0x09 | 0x0B..0x0C | 0x0E..0x7F ) @append;
 quoted_content  = ( qdtext | quoted_pair )* >start;
 quoted_string   = DQUOTE quoted_content DQUOTE;
-unquoted_string = ( token LWS )+;
+unquoted_string = token ( LWS token )* SWS;
 
 # Content Type Parsing
 #
-- 
2.43.0


From ece25fcb07da0e403d21b970f0758acb18260c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:15 +0000
Subject: [PATCH 53/58] fix: Contact of a transport repeated the transport
 parameter if it was given one

---
 dialog/transport.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dialog/transport.go b/dialog/transport.go
index 1b86455..7cc0cfb 100755
--- a/dialog/transport.go
+++ b/dialog/transport.go
@@ -55,10 +55,12 @@ func NewTransport(contact *sip.Addr) (tp *Transport, err error) {
 	contact = contact.Copy()
 	contact.Next = nil
 	contact.Uri.Port = uint16(addr.Port)
-	contact.Uri.Param = &sip.URIParam{
-		Name:  "transport",
-		Value: "udp",
-		Next:  contact.Uri.Param,
+	if contact.Uri.Param.Get("transport") == nil {
+		contact.Uri.Param = &sip.URIParam{
+			Name:  "transport",
+			Value: "udp",
+			Next:  contact.Uri.Param,
+		}
 	}
 	c := make(chan *sip.Msg)
 	e := make(chan error)
-- 
2.43.0


From 458c28998f10914274936abe2a4acb0c189ffb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:05 +0000
Subject: [PATCH 54/58] fix: requests from an address that had a tag got a
 second one

---
 sip/addr.go  |  2 +-
 sip/param.go | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/sip/addr.go b/sip/addr.go
index 983ef41..4ca9efd 100755
--- a/sip/addr.go
+++ b/sip/addr.go
@@ -62,7 +62,7 @@ func (addr *Addr) Or(other *Addr) *Addr {
 
 // Sets newly generated tag ID and returns self.
 func (addr *Addr) Tag() *Addr {
-	addr.Param = &Param{"tag", util.GenerateTag(), addr.Param}
+	addr.Param = &Param{"tag", util.GenerateTag(), addr.Param.without("tag")}
 	return addr
 }
 
diff --git a/sip/param.go b/sip/param.go
index a7d343e..6115b8d 100644
--- a/sip/param.go
+++ b/sip/param.go
@@ -40,6 +40,17 @@ func (p *Param) Get(name string) *Param {
 	return nil
 }
 
+// without returns the list less the entries of that name, changing no entry.
+func (p *Param) without(name string) *Param {
+	if p.Get(name) == nil {
+		return p
+	}
+	if strings.EqualFold(p.Name, name) {
+		return p.Next.without(name)
+	}
+	return &Param{p.Name, p.Value, p.Next.without(name)}
+}
+
 // Append serializes parameters in insertion order.
 func (p *Param) Append(b *bytes.Buffer) {
 	if p == nil {
-- 
2.43.0


From 07b7ab64bc272e663b48f79822c0ebe8d7f96c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:08 +0000
Subject: [PATCH 55/58] fix: sending a message once more routed it differently

---
 dialog/transport.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dialog/transport.go b/dialog/transport.go
index 7cc0cfb..eaa1b0b 100755
--- a/dialog/transport.go
+++ b/dialog/transport.go
@@ -81,6 +81,9 @@ func NewTransport(contact *sip.Addr) (tp *Transport, err error) {
 // Sends a SIP message.
 func (tp *Transport) Send(msg *sip.Msg) error {
 	PopulateMessage(tp.Via, tp.Contact, msg)
+	// Sending it once more has to have the same result.
+	routed := *msg
+	msg = &routed
 	host, port, err := RouteMessage(tp.Via, tp.Contact, msg)
 	if err != nil {
 		return err
-- 
2.43.0


From 26621906deb357af69d60f1c08593a9b94fb5544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:52 +0000
Subject: [PATCH 56/58] fix: requests numbered 0 got another number when sent
 once more

---
 util/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/util.go b/util/util.go
index 7a69062..fc6842d 100755
--- a/util/util.go
+++ b/util/util.go
@@ -40,14 +40,14 @@ func IsIPv6(ip string) bool {
 	return strings.Index(ip, ":") >= 0
 }
 
-// Generate a secure random number between 0 and 50,000.
+// Generate a secure random number between 1 and 50,000, as 0 stands for none.
 func GenerateCSeq() int {
 	nBig, err := rand.Int(rand.Reader, big.NewInt(50000))
 	if err != nil {
 		panic("could not get random int: " + err.Error())
 	}
 
-	return int(nBig.Int64())
+	return 1 + int(nBig.Int64())
 }
 
 // Generate a 48-bit secure random string like: 27c97271d363.
-- 
2.43.0


From 5753d7001d7742c5ec0bcdda968f087e0523fd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:03 +0000
Subject: [PATCH 57/58] fix: reason phrases went out without their escapes

An escaped octet of a reason phrase is decoded when a response is parsed, so a
response passed on with %0d%0a in its phrase had additional lines. Escape
whatever may not appear in a phrase, like other parts of messages do.
---
 sip/charsets.go |  9 +++++++++
 sip/escape.go   | 10 ++++++++++
 sip/msg.go      |  2 +-
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/sip/charsets.go b/sip/charsets.go
index f8a6706..a6e58ff 100644
--- a/sip/charsets.go
+++ b/sip/charsets.go
@@ -23,6 +23,7 @@ var (
 	passcMask   [2]uint64
 	paramcMask  [2]uint64
 	headercMask [2]uint64
+	reasoncMask [2]uint64
 )
 
 func tokenc(c byte) bool {
@@ -49,6 +50,10 @@ func headerc(c byte) bool {
 	return charsetContains(&headercMask, c)
 }
 
+func reasonc(c byte) bool {
+	return charsetContains(&reasoncMask, c)
+}
+
 func qdtextesc(c byte) bool {
 	return 0x00 <= c && c <= 0x09 ||
 		0x0B <= c && c <= 0x0C ||
@@ -82,6 +87,10 @@ func init() {
 	charsetAddAlphaNumeric(&headercMask)
 	charsetAddMark(&headercMask)
 	charsetAdd(&headercMask, '[', ']', '/', '?', ':', '+', '$')
+
+	charsetAddAlphaNumeric(&reasoncMask)
+	charsetAddMark(&reasoncMask)
+	charsetAdd(&reasoncMask, ';', '/', '?', ':', '@', '&', '=', '+', '$', ',', ' ', '\t')
 }
 
 func charsetContains(mask *[2]uint64, i byte) bool {
diff --git a/sip/escape.go b/sip/escape.go
index 8d285d8..12ab464 100644
--- a/sip/escape.go
+++ b/sip/escape.go
@@ -16,6 +16,7 @@ package sip
 
 import (
 	"bytes"
+	"unicode/utf8"
 )
 
 const (
@@ -35,3 +36,12 @@ func appendEscaped(b *bytes.Buffer, s []byte, p func(byte) bool) {
 		}
 	}
 }
+
+// appendPhrase appends a reason phrase, which may have any UTF-8 text but only
+// some of the ASCII characters and no other bytes unless they're escaped.
+func appendPhrase(b *bytes.Buffer, s string) {
+	text := utf8.ValidString(s)
+	appendEscaped(b, []byte(s), func(c byte) bool {
+		return reasonc(c) || text && c >= utf8.RuneSelf
+	})
+}
diff --git a/sip/msg.go b/sip/msg.go
index de346b9..f22b71a 100755
--- a/sip/msg.go
+++ b/sip/msg.go
@@ -155,7 +155,7 @@ func (msg *Msg) Append(b *bytes.Buffer) {
 		b.WriteString(" ")
 		b.WriteString(strconv.Itoa(msg.Status))
 		b.WriteString(" ")
-		b.WriteString(msg.Phrase)
+		appendPhrase(b, msg.Phrase)
 		b.WriteString("\r\n")
 	}
 
-- 
2.43.0


From 97ea5f59859d787506490c9ee1367044fc93f9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:51 +0000
Subject: [PATCH 58/58] fix: media at a host name was notified as a peer
 without an address

The connection address of a session description may be a host name. The caller
was given an address without an IP then, which stands for the local host.
---
 dialog/dialog.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 81711ab..e57a784 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -468,6 +468,14 @@ func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
 
 func (dls *dialogState) checkSDP(msg *sip.Msg) {
 	if ms, ok := msg.Payload.(*sdp.SDP); ok && ms.Audio != nil {
+		if net.ParseIP(ms.Addr) == nil { // It may be a host name.
+			addr, err := net.ResolveIPAddr("ip", ms.Addr)
+			if err != nil || addr.IP == nil {
+				log.Printf("Can't resolve media address: %s\r\n", ms.Addr)
+				return
+			}
+			ms.Addr = addr.IP.String()
+		}
 		dls.peerChan <- &net.UDPAddr{IP: net.ParseIP(ms.Addr), Port: int(ms.Audio.Port)}
 	}
 }
-- 
2.43.0

