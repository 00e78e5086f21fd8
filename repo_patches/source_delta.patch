From ec538e2572905343d16b59af08b2412abe1358b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 01/82] fix: rtmp: flush each written tag so accepted packets
 reach the peer

---
 format/rtmp/msg.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/format/rtmp/msg.go b/format/rtmp/msg.go
index 167dd5b..5708379 100644
--- a/format/rtmp/msg.go
+++ b/format/rtmp/msg.go
@@ -767,12 +767,15 @@ func (c *Conn) WriteTag(tag flvio.Tag) (err error) {
 	} else {
 		csid = 5
 	}
-	return c.writeMsg(csid, message{
+	if err = c.writeMsg(csid, message{
 		msgtypeid: uint8(tag.Type),
 		msgdata:   tag.Data,
 		msgsid:    c.avmsgsid,
 		timenow:   tag.Time,
-	}, tag.FillHeader)
+	}, tag.FillHeader); err != nil {
+		return
+	}
+	return c.flushWrite()
 }
 
 func (c *message) arrToCommand(arr []interface{}) (cmd *command, err error) {
-- 
2.43.0


From 8de3c104c7b501c591cbb3bd2210e196948eda05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:55 +0000
Subject: [PATCH 02/82] fix: rtmp: report a refused publish or play with level
 error so clients notice it

---
 format/rtmp/cmd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/rtmp/cmd.go b/format/rtmp/cmd.go
index fdba509..506949e 100644
--- a/format/rtmp/cmd.go
+++ b/format/rtmp/cmd.go
@@ -78,7 +78,7 @@ func (c *Conn) writePublishOrPlayResult(ok bool, msg string) (err error) {
 			if err = c.writeCommand(5, c.avmsgsid,
 				"onStatus", c.lastcmd.transid, nil,
 				flvio.AMFMap{
-					{K: "level", V: "status"},
+					{K: "level", V: "error"},
 					{K: "code", V: "NetStream.Play.Failed"},
 					{K: "description", V: msg},
 				},
@@ -140,7 +140,7 @@ func (c *Conn) writePublishOrPlayResult(ok bool, msg string) (err error) {
 			if err = c.writeCommand(5, c.avmsgsid,
 				"onStatus", c.lastcmd.transid, nil,
 				flvio.AMFMap{
-					{K: "level", V: "status"},
+					{K: "level", V: "error"},
 					{K: "code", V: "NetStream.Publish.Failed"},
 					{K: "description", V: msg},
 				},
-- 
2.43.0


From 5c16847111ebb9899af8ddf8fce91f2a2d0256e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:57 +0000
Subject: [PATCH 03/82] fix: rtmp: decode 3-byte chunk stream ids in the order
 the protocol defines

---
 format/rtmp/msg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/rtmp/msg.go b/format/rtmp/msg.go
index 5708379..70021f3 100644
--- a/format/rtmp/msg.go
+++ b/format/rtmp/msg.go
@@ -313,7 +313,7 @@ func (c *Conn) readChunk() (msg *message, err error) {
 		if _, err = c.wrapRW.Read(b[:2]); err != nil {
 			return
 		}
-		csid = uint32(pio.U16BE(b)) + 64
+		csid = uint32(b[0]) + uint32(b[1])<<8 + 64
 	}
 
 	newcs := false
-- 
2.43.0


From 5f472253d3c8218fd3883cb98ba504e70567c74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:58 +0000
Subject: [PATCH 04/82] fix: rtmp: Dial returns an error for an unknown scheme
 instead of dereferencing nil

---
 format/rtmp/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/rtmp/client.go b/format/rtmp/client.go
index 242c497..761bff9 100644
--- a/format/rtmp/client.go
+++ b/format/rtmp/client.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"context"
 	"crypto/tls"
+	"fmt"
 	"net"
 	"net/url"
 	"time"
@@ -89,6 +90,9 @@ func (t *Client) Dial(url_ string, flags int) (c *Conn, nc net.Conn, err error)
 			return
 		}
 		nc_ = tls.Client(nc_, &tls.Config{InsecureSkipVerify: true})
+	default:
+		err = fmt.Errorf("SchemeInvalid(%s)", u.Scheme)
+		return
 	}
 
 	var c_ *Conn
-- 
2.43.0


From 43c1f1c47bfada56c85338cba1e01f1235c0fee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:23 +0000
Subject: [PATCH 05/82] fix: flvio: bound memory and nesting when parsing AMF
 from the network

---
 format/flv/flvio/amf0.go | 14 ++++++++++++--
 format/flv/flvio/amf3.go | 17 +++++++++++------
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/format/flv/flvio/amf0.go b/format/flv/flvio/amf0.go
index 5276829..80ba4ba 100644
--- a/format/flv/flvio/amf0.go
+++ b/format/flv/flvio/amf0.go
@@ -327,6 +327,9 @@ func FillAMF0Val(b []byte, n *int, _val interface{}) {
 	return
 }
 
+// amfMaxDepth limits how deep parsed values may nest, since the input is untrusted.
+const amfMaxDepth = 256
+
 func ParseAMF0Val(b []byte, n *int) (val interface{}, err error) {
 	val, err = parseAMF0Val(0, b, n)
 	return
@@ -362,6 +365,11 @@ func ParseAMFVals(b []byte, isamf3 bool) (arr []interface{}, err error) {
 func parseAMF0Val(depth int, b []byte, n *int) (val interface{}, err error) {
 	const debug = false
 
+	if depth > amfMaxDepth {
+		err = amfParseErr("toodeep", b, *n, nil)
+		return
+	}
+
 	var marker uint8
 	if marker, err = pio.ReadU8(b, n); err != nil {
 		err = amfParseErr("marker", b, *n, err)
@@ -489,12 +497,14 @@ func parseAMF0Val(depth int, b []byte, n *int) (val interface{}, err error) {
 			err = amfParseErr("strictarray.count.toobig", b, *n, err)
 			return
 		}
-		obj := make(AMFArray, count)
+		obj := AMFArray{}
 		for i := 0; i < int(count); i++ {
-			if obj[i], err = parseAMF0Val(depth+1, b, n); err != nil {
+			var aval interface{}
+			if aval, err = parseAMF0Val(depth+1, b, n); err != nil {
 				err = amfParseErr("strictarray.val", b, *n, err)
 				return
 			}
+			obj = append(obj, aval)
 		}
 		val = obj
 
diff --git a/format/flv/flvio/amf3.go b/format/flv/flvio/amf3.go
index c280a79..38b26bf 100644
--- a/format/flv/flvio/amf3.go
+++ b/format/flv/flvio/amf3.go
@@ -37,6 +37,11 @@ func parseAMF3Val(depth int, b []byte, n *int) (val interface{}, err error) {
 	const debug = false
 	var marker uint8
 
+	if depth > amfMaxDepth {
+		err = amfParseErr("toodeep", b, *n, nil)
+		return
+	}
+
 	if marker, err = pio.ReadU8(b, n); err != nil {
 		err = amfParseErr("marker", b, *n, err)
 		return
@@ -221,7 +226,7 @@ func readArray(depth int, b []byte, n *int) (val AMFMap, err error) {
 			break
 		}
 		var v interface{}
-		if v, err = parseAMF3Val(depth, b, n); err != nil {
+		if v, err = parseAMF3Val(depth+1, b, n); err != nil {
 			err = amfParseErr("array.val", b, *n, err)
 			return
 		}
@@ -277,23 +282,23 @@ func readObject(depth int, b []byte, n *int) (val AMFMap, err error) {
 				break
 			}
 			var v interface{}
-			if v, err = parseAMF3Val(depth, b, n); err != nil {
+			if v, err = parseAMF3Val(depth+1, b, n); err != nil {
 				err = amfParseErr("array.val", b, *n, err)
 				return
 			}
 			val = val.Set(k, v)
 		}
 	} else {
-		keys := make([]string, l)
+		keys := []string{}
 		for i := 0; i < l; i++ {
-			keys[i], err = readString(b, n)
-			if err != nil {
+			if k, err = readString(b, n); err != nil {
 				return
 			}
+			keys = append(keys, k)
 		}
 		for i := 0; i < l; i++ {
 			var v interface{}
-			if v, err = parseAMF3Val(depth, b, n); err != nil {
+			if v, err = parseAMF3Val(depth+1, b, n); err != nil {
 				return
 			}
 			val = val.Set(keys[i], v)
-- 
2.43.0


From c15534e98ed623cd4a94c7b0ec1b5e31bf5abbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:33 +0000
Subject: [PATCH 06/82] fix: avtool: pubsubrtmp closes a client's connection
 when its session ends

---
 cmd/avtool/pubsub.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/avtool/pubsub.go b/cmd/avtool/pubsub.go
index 5497c10..a956804 100644
--- a/cmd/avtool/pubsub.go
+++ b/cmd/avtool/pubsub.go
@@ -309,6 +309,8 @@ func doPubsubRtmp(listenAddr string) error {
 	}
 
 	s.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
+		defer nc.Close()
+
 		stream, remove := streams.add(c.URL.Path)
 		defer remove()
 
-- 
2.43.0


From 68fdb1e8a686bf9a16f65ff94719574f65c254f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:46 +0000
Subject: [PATCH 07/82] fix: avtool: forwardrtmp refuses a forward target that
 is not rtmp instead of opening it as a file

---
 cmd/avtool/forwardrtmp.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/avtool/forwardrtmp.go b/cmd/avtool/forwardrtmp.go
index f0bdb28..793adde 100644
--- a/cmd/avtool/forwardrtmp.go
+++ b/cmd/avtool/forwardrtmp.go
@@ -3,6 +3,7 @@ package main
 import (
 	"log"
 	"net"
+	"net/url"
 	"time"
 	"unsafe"
 
@@ -42,6 +43,12 @@ func doForwardRtmp(listenAddr string) (err error) {
 		}
 		log.Println(unsafe.Pointer(c), nc.LocalAddr(), nc.RemoteAddr(), "fwd", fwd)
 
+		// only relay to rtmp: anything else would be opened as a local file
+		if u, err := url.Parse(fwd); err != nil || (u.Scheme != "rtmp" && u.Scheme != "rtmps") {
+			log.Println(unsafe.Pointer(c), nc.LocalAddr(), nc.RemoteAddr(), "BadForwardField")
+			return
+		}
+
 		fo := newFormatOpener()
 
 		var err error
-- 
2.43.0


From 6b8a913fd7e6a94b0a2ff31621fbb5aa02c8a900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:33 +0000
Subject: [PATCH 08/82] fix: format: Create does not create or truncate a file
 it cannot write, nor leak its handle

---
 format/format.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/format/format.go b/format/format.go
index 483e306..fc221d4 100644
--- a/format/format.go
+++ b/format/format.go
@@ -153,6 +153,10 @@ func (o *URLOpener) Create(url_ string, streamer av.Streamer) (w *Writer, err er
 
 	default:
 		ext := path.Ext(u.Path)
+		if ext != ".flv" && (ext != ".mp4" || streamer == nil) {
+			err = ErrUnsupported(url_)
+			return
+		}
 		var f *os.File
 		if f, err = os.Create(u.Path); err != nil {
 			return
@@ -172,6 +176,7 @@ func (o *URLOpener) Create(url_ string, streamer av.Streamer) (w *Writer, err er
 			var m *mp4.Muxer
 			m, err = mp4.NewMuxer(NewStreamsWriteSeeker(f, streamer))
 			if err != nil {
+				f.Close()
 				return nil, err
 			}
 			w = &Writer{
-- 
2.43.0


From 3d2d72b9fbde392a8850e3ea5074c159bc362817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:33 +0000
Subject: [PATCH 09/82] fix: format: closing an mp4 writer closes its file even
 if the trailer fails

---
 format/format.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/format/format.go b/format/format.go
index fc221d4..21430fd 100644
--- a/format/format.go
+++ b/format/format.go
@@ -32,14 +32,11 @@ type Mp4WriterCloser struct {
 }
 
 func (c Mp4WriterCloser) Close() error {
-	if err := c.Muxer.WriteTrailer(); err != nil {
-		return err
+	err := c.Muxer.WriteTrailer()
+	if cerr := c.Closer.Close(); err == nil {
+		err = cerr
 	}
-	if err := c.Closer.Close(); err != nil {
-		return err
-	}
-
-	return nil
+	return err
 }
 
 type Reader struct {
-- 
2.43.0


From 54ce80b3b911aaab2d7b94f56c111c9f4aec5000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:33 +0000
Subject: [PATCH 10/82] fix: format: http sources report an error status and
 release their connection when closed

---
 format/format.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/format/format.go b/format/format.go
index 21430fd..9cdd840 100644
--- a/format/format.go
+++ b/format/format.go
@@ -20,12 +20,6 @@ import (
 	"github.com/nareix/joy5/format/rtmp"
 )
 
-type dummyCloser struct{}
-
-func (c dummyCloser) Close() error {
-	return nil
-}
-
 type Mp4WriterCloser struct {
 	io.Closer
 	*mp4.Muxer
@@ -256,13 +250,18 @@ func (o *URLOpener) Open(url_ string) (r *Reader, err error) {
 			if hr, err = http.Get(url_); err != nil {
 				return
 			}
+			if hr.StatusCode != http.StatusOK {
+				hr.Body.Close()
+				err = fmt.Errorf("open `%s` failed: %s", url_, hr.Status)
+				return
+			}
 			c := flv.NewDemuxer(hr.Body)
 			if fn := o.OnNewFlvDemuxer; fn != nil {
 				fn(c)
 			}
 			r = &Reader{
 				PacketReader: c,
-				Closer:       dummyCloser{},
+				Closer:       hr.Body,
 				Flv:          c,
 				IsRemote:     true,
 			}
-- 
2.43.0


From 9457a105c7d39754b611c5ebb53be8902b71d023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:34 +0000
Subject: [PATCH 11/82] fix: format: an rtmp listening source stops listening
 once it has its connection and turns others away

---
 format/format.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/format/format.go b/format/format.go
index 9cdd840..354ec9a 100644
--- a/format/format.go
+++ b/format/format.go
@@ -82,15 +82,24 @@ func (o *URLOpener) StartRtmpServerWaitConn(u *url.URL) (c *rtmp.Conn, nc net.Co
 		c  *rtmp.Conn
 		nc net.Conn
 	}
-	got_ := make(chan Got, 1)
+	got_ := make(chan Got)
+	done := make(chan struct{})
 	s.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
-		got_ <- Got{c, nc}
+		select {
+		case got_ <- Got{c, nc}:
+		case <-done: // somebody else got in first
+			nc.Close()
+		}
 	}
 	go func() {
 		for {
 			nc, err := lis.Accept()
 			if err != nil {
-				time.Sleep(time.Second)
+				select {
+				case <-done:
+					return
+				case <-time.After(time.Second):
+				}
 				continue
 			}
 			go s.HandleNetConn(nc)
@@ -98,6 +107,8 @@ func (o *URLOpener) StartRtmpServerWaitConn(u *url.URL) (c *rtmp.Conn, nc net.Co
 	}()
 
 	got := <-got_
+	close(done)
+	lis.Close()
 	c = got.c
 	nc = got.nc
 	if fn := o.OnNewRtmpConn; fn != nil {
-- 
2.43.0


From d2393c28b038a4c9826eab012b3b5e709edb61d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:04 +0000
Subject: [PATCH 12/82] fix: format: an rtmp listening source does not take a
 player for its publisher

---
 format/format.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/format.go b/format/format.go
index 354ec9a..ed87648 100644
--- a/format/format.go
+++ b/format/format.go
@@ -85,6 +85,10 @@ func (o *URLOpener) StartRtmpServerWaitConn(u *url.URL) (c *rtmp.Conn, nc net.Co
 	got_ := make(chan Got)
 	done := make(chan struct{})
 	s.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
+		if !c.Publishing { // a player has nothing to read from
+			nc.Close()
+			return
+		}
 		select {
 		case got_ <- Got{c, nc}:
 		case <-done: // somebody else got in first
-- 
2.43.0


From 5dc7aafc71bebb7397bd1caee6185b22e7faee0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:21 +0000
Subject: [PATCH 13/82] fix: avtool conv: close the destination and report what
 closing it says

---
 cmd/avtool/conv.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/avtool/conv.go b/cmd/avtool/conv.go
index dbfd342..d852186 100644
--- a/cmd/avtool/conv.go
+++ b/cmd/avtool/conv.go
@@ -30,6 +30,14 @@ func doConv(src, dst string) (err error) {
 	if fr, err = foR.Open(src); err != nil {
 		return
 	}
+	defer fr.Close()
+	defer func() {
+		if fw != nil {
+			if cerr := fw.Close(); err == nil {
+				err = cerr
+			}
+		}
+	}()
 
 	canRe := func() bool {
 		if optNativeRate {
-- 
2.43.0


From fc9f3e9c242b7189153d3cc7d3a2f8d3f75fda66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:21 +0000
Subject: [PATCH 14/82] fix: avtool conv: pace a remote destination from the
 first packet

---
 cmd/avtool/conv.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cmd/avtool/conv.go b/cmd/avtool/conv.go
index d852186..38697d6 100644
--- a/cmd/avtool/conv.go
+++ b/cmd/avtool/conv.go
@@ -66,6 +66,12 @@ func doConv(src, dst string) (err error) {
 			}
 		}
 
+		if dst != "" && fw == nil {
+			if fw, err = foW.Create(dst, nil); err != nil {
+				return
+			}
+		}
+
 		if re == nil && canRe() {
 			re = pktop.NewNativeRateLimiter()
 		}
@@ -78,12 +84,6 @@ func doConv(src, dst string) (err error) {
 				fmt.Println(pkt.String())
 			}
 
-			if dst != "" && fw == nil {
-				if fw, err = foW.Create(dst, nil); err != nil {
-					return
-				}
-			}
-
 			if fw != nil {
 				if err = fw.WritePacket(pkt); err != nil {
 					return
-- 
2.43.0


From 25c2db86427e459d18a3bcdecb4884aae8ceb117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:21 +0000
Subject: [PATCH 15/82] fix: pktop: the native rate limiter counts from the
 first media packet

---
 av/pktop/pktop.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/av/pktop/pktop.go b/av/pktop/pktop.go
index e501f8c..1bfedc3 100644
--- a/av/pktop/pktop.go
+++ b/av/pktop/pktop.go
@@ -7,18 +7,25 @@ import (
 )
 
 type NativeRateLimiter struct {
+	started       bool
 	pktTimeStart  time.Duration
 	wallTimeStart time.Time
 }
 
 func NewNativeRateLimiter() *NativeRateLimiter {
-	return &NativeRateLimiter{
-		wallTimeStart: time.Now(),
-	}
+	return &NativeRateLimiter{}
 }
 
 func (l *NativeRateLimiter) Do(in []av.Packet) []av.Packet {
 	for _, pkt := range in {
+		if pkt.Type != av.H264 && pkt.Type != av.AAC {
+			continue // headers have no place in time
+		}
+		if !l.started { // a stream does not have to start at 0
+			l.started = true
+			l.pktTimeStart = pkt.Time
+			l.wallTimeStart = time.Now()
+		}
 		if pktTimeDiff := pkt.Time - l.pktTimeStart; pktTimeDiff > 0 {
 			wallTimeDiff := time.Now().Sub(l.wallTimeStart)
 			if wallTimeDiff < pktTimeDiff {
-- 
2.43.0


From 620a535a024c1fd0ab46c92fdac4fd5e00858973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:47 +0000
Subject: [PATCH 16/82] fix: flvio: a stream cut inside a tag does not end
 orderly

---
 format/flv/flvio/flvio.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/format/flv/flvio/flvio.go b/format/flv/flvio/flvio.go
index a2c91e3..da1f3ef 100644
--- a/format/flv/flvio/flvio.go
+++ b/format/flv/flvio/flvio.go
@@ -365,6 +365,7 @@ func ReadTag(r io.Reader, b []byte, malloc func(int) ([]byte, error)) (tag Tag,
 		return
 	}
 	if _, err = io.ReadFull(r, data); err != nil {
+		err = cutShort(err)
 		return
 	}
 
@@ -373,11 +374,20 @@ func ReadTag(r io.Reader, b []byte, malloc func(int) ([]byte, error)) (tag Tag,
 	}
 
 	if _, err = io.ReadFull(r, b[:4]); err != nil {
+		err = cutShort(err)
 		return
 	}
 	return
 }
 
+// the end of a stream inside a tag is not its orderly end
+func cutShort(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+	return err
+}
+
 const TagHeaderLength = 11
 
 func FillTagHeader(b []byte, tag Tag, datalen int) {
-- 
2.43.0


From cc53decee478aa77f3d40e0ebd6f7bb7ed6beb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:38 +0000
Subject: [PATCH 17/82] fix: rtsp: a short rtcp block does not panic the client

---
 format/rtsp/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 978fdcf..f29648e 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -231,6 +231,9 @@ func (self *Client) parseBlockHeader(h []byte) (length int, no int, valid bool)
 			}
 		}
 	} else { // rtcp
+		if length < 8 {
+			return
+		}
 	}
 
 	valid = true
-- 
2.43.0


From 84fefb312af7714e7e9101c9f0297cf32dac3a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:38 +0000
Subject: [PATCH 18/82] fix: rtsp: do not reserve memory for a body that has
 not arrived

---
 format/rtsp/client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index f29648e..0ae9494 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -467,10 +467,11 @@ func (self *Client) readResp(b []byte) (res Response, err error) {
 	}
 	res.ContentLength, _ = strconv.Atoi(res.Headers.Get("Content-Length"))
 	if res.ContentLength > 0 {
-		res.Body = make([]byte, res.ContentLength)
-		if _, err = io.ReadFull(self.brconn, res.Body); err != nil {
+		body := &bytes.Buffer{} // grows with what really arrives
+		if _, err = io.CopyN(body, self.brconn, int64(res.ContentLength)); err != nil {
 			return
 		}
+		res.Body = body.Bytes()
 	}
 	if err = self.handleResp(&res); err != nil {
 		return
-- 
2.43.0


From af07003b089767017b492957fedebe315e184b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:38 +0000
Subject: [PATCH 19/82] fix: rtsp: a bare media line in an sdp does not panic
 the client

---
 format/rtsp/sdp/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/rtsp/sdp/parser.go b/format/rtsp/sdp/parser.go
index fa701aa..04b69ff 100644
--- a/format/rtsp/sdp/parser.go
+++ b/format/rtsp/sdp/parser.go
@@ -43,6 +43,9 @@ func Parse(content string) (sess Session, medias []Media) {
 					case "audio", "video":
 						medias = append(medias, Media{AVType: fields[0]})
 						media = &medias[len(medias)-1]
+						if len(fields) < 2 {
+							break
+						}
 						mfields := strings.Split(fields[1], " ")
 						if len(mfields) >= 3 {
 							media.PayloadType, _ = strconv.Atoi(mfields[2])
-- 
2.43.0


From f8be07585e0d9ca52beda9773af08efa90816f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:38 +0000
Subject: [PATCH 20/82] fix: rtsp: a digest challenge may contain '=' in its
 values

---
 format/rtsp/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 0ae9494..98f716b 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -287,7 +287,7 @@ func (self *Client) handle401(res *Response) (err error) {
 	if len(hdrval) == 2 {
 		for _, field := range strings.Split(hdrval[1], ",") {
 			field = strings.Trim(field, ", ")
-			if keyval := strings.Split(field, "="); len(keyval) == 2 {
+			if keyval := strings.SplitN(field, "=", 2); len(keyval) == 2 {
 				key := keyval[0]
 				val := strings.Trim(keyval[1], `"`)
 				switch key {
-- 
2.43.0


From f7f7498675348a5df06f8ef9559e247bf92eb0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:38 +0000
Subject: [PATCH 21/82] fix: rtsp: a refused describe, setup or play is an
 error

---
 format/rtsp/client.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 98f716b..5df2ba1 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -60,6 +60,7 @@ type Client struct {
 	brconn     *bufio.Reader
 	requestUri string
 	cseq       uint
+	playCseq   string
 	streams    []*Stream
 	session    string
 	body       io.Reader
@@ -556,7 +557,12 @@ func (self *Client) Setup(idx []int) (err error) {
 		if err = self.WriteRequest(req); err != nil {
 			return
 		}
-		if _, err = self.ReadResponse(); err != nil {
+		var res Response
+		if res, err = self.ReadResponse(); err != nil {
+			return
+		}
+		if res.StatusCode/100 != 2 {
+			err = fmt.Errorf("rtsp: Setup failed, StatusCode=%d", res.StatusCode)
 			return
 		}
 	}
@@ -591,7 +597,7 @@ func (self *Client) Describe() (err error) {
 			break
 		}
 	}
-	if res.ContentLength == 0 {
+	if res.StatusCode != 200 || res.ContentLength == 0 {
 		err = fmt.Errorf("rtsp: Describe failed, StatusCode=%d", res.StatusCode)
 		return
 	}
@@ -1051,6 +1057,7 @@ func (self *Client) Play() (err error) {
 	if err = self.WriteRequest(req); err != nil {
 		return
 	}
+	self.playCseq = strconv.Itoa(int(self.cseq))
 	if self.stage == stageSetupDone {
 		self.stage = stagePlayDone
 	}
@@ -1146,6 +1153,10 @@ func (self *Client) readPacket() (pkt av.Packet, err error) {
 			if len(res.Block) > 0 {
 				break
 			}
+			if res.StatusCode/100 != 2 && self.playCseq != "" && res.Headers.Get("CSeq") == self.playCseq {
+				err = fmt.Errorf("rtsp: Play failed, StatusCode=%d", res.StatusCode)
+				return
+			}
 		}
 
 		var ok bool
-- 
2.43.0


From 48ed9381a881d2d2a9dac0d9ee2ecca502bd5324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:38 +0000
Subject: [PATCH 22/82] fix: rtsp: keep all slices of an aggregation packet

---
 format/rtsp/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 5df2ba1..ba08dd3 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -785,7 +785,7 @@ func (self *Stream) handleH264Payload(timestamp uint32, packet []byte) (err erro
 		b := make([]byte, 4+len(packet))
 		pio.PutU32BE(b[0:4], uint32(len(packet)))
 		copy(b[4:], packet)
-		self.pkt.Data = b
+		self.pkt.Data = append(self.pkt.Data, b...) // slices of one rtp packet stay together
 		self.timestamp = timestamp
 
 	case naluType == 7: // sps
-- 
2.43.0


From 8e4b9d80b35298c2433c87fa0e35eb99166164cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:38 +0000
Subject: [PATCH 23/82] fix: rtsp: timestamps may start at 0 and wrap around

---
 format/rtsp/client.go | 19 +++++++++----------
 format/rtsp/stream.go | 10 ++++++----
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index ba08dd3..3206b5e 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -223,11 +223,8 @@ func (self *Client) parseBlockHeader(h []byte) (length int, no int, valid bool)
 		}
 
 		timestamp := binary.BigEndian.Uint32(h[8:12])
-		if stream.firsttimestamp != 0 {
-			timestamp -= stream.firsttimestamp
-			if timestamp < stream.timestamp {
-				return
-			} else if timestamp-stream.timestamp > uint32(stream.timeScale()*60*60) {
+		if stream.started { // a step backwards shows as a huge difference
+			if timestamp-stream.lasttimestamp > uint32(stream.timeScale()*60*60) {
 				return
 			}
 		}
@@ -1108,19 +1105,21 @@ func (self *Client) handleBlock(block []byte) (pkt av.Packet, ok bool, err error
 	if stream.gotpkt {
 		/*
 			TODO: sync AV by rtcp NTP timestamp
-			TODO: handle timestamp overflow
 			https://tools.ietf.org/html/rfc3550
 			A receiver can then synchronize presentation of the audio and video packets by relating
 			their RTP timestamps using the timestamp pairs in RTCP SR packets.
 		*/
-		if stream.firsttimestamp == 0 {
-			stream.firsttimestamp = stream.timestamp
+		if stream.started {
+			stream.ticks += int64(stream.timestamp - stream.lasttimestamp)
 		}
-		stream.timestamp -= stream.firsttimestamp
+		stream.started = true
+		stream.lasttimestamp = stream.timestamp
 
 		ok = true
 		pkt = stream.pkt
-		pkt.Time = time.Duration(stream.timestamp) * time.Second / time.Duration(stream.timeScale())
+		scale := int64(stream.timeScale())
+		pkt.Time = time.Duration(stream.ticks/scale)*time.Second +
+			time.Duration(stream.ticks%scale)*time.Second/time.Duration(scale)
 
 		if pkt.Time < stream.lasttime || pkt.Time-stream.lasttime > time.Minute*30 {
 			err = fmt.Errorf("rtp: time invalid  time=%v lasttime=%v", pkt.Time, stream.lasttime)
diff --git a/format/rtsp/stream.go b/format/rtsp/stream.go
index 8444e1b..9ae33b8 100644
--- a/format/rtsp/stream.go
+++ b/format/rtsp/stream.go
@@ -20,10 +20,12 @@ type Stream struct {
 	spsChanged bool
 	ppsChanged bool
 
-	gotpkt         bool
-	pkt            av.Packet
-	timestamp      uint32
-	firsttimestamp uint32
+	gotpkt        bool
+	pkt           av.Packet
+	timestamp     uint32
+	started       bool
+	lasttimestamp uint32
+	ticks         int64 // since the first packet
 
 	lasttime time.Duration
 }
-- 
2.43.0


From 8945674adaa909ce6ca24fa7f07929960af2ee17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:07 +0000
Subject: [PATCH 24/82] fix: rtsp: honour rtp header extensions and padding

---
 format/rtsp/client.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 3206b5e..de86ca6 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -963,6 +963,16 @@ func (self *Stream) handleRtpPacket(packet []byte) (err error) {
 		return
 	}
 	payloadOffset := 12 + int(packet[0]&0xf)*4
+	if packet[0]&0x10 != 0 && payloadOffset+4 <= len(packet) { // header extension
+		payloadOffset += 4 + int(pio.U16BE(packet[payloadOffset+2:]))*4
+	}
+	if packet[0]&0x20 != 0 { // padding
+		n := len(packet) - int(packet[len(packet)-1])
+		if n < 0 {
+			n = 0
+		}
+		packet = packet[:n]
+	}
 	if payloadOffset > len(packet) {
 		err = fmt.Errorf("rtp: packet too short")
 		return
-- 
2.43.0


From 99dea23235d0ef00f4295213cad0548c65e9c69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:07 +0000
Subject: [PATCH 25/82] fix: rtsp: a stream cut inside a packet does not end
 orderly

---
 format/rtsp/client.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index de86ca6..3d6ca04 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -345,6 +345,9 @@ func (self *Client) findRTSP() (block []byte, data []byte, err error) {
 	for i := 0; ; i++ {
 		var b byte
 		if b, err = self.brconn.ReadByte(); err != nil {
+			if len(peek) > 0 {
+				err = cutShort(err)
+			}
 			return
 		}
 		switch b {
@@ -396,6 +399,7 @@ func (self *Client) findRTSP() (block []byte, data []byte, err error) {
 				left := blocklen + 4 - len(peek)
 				block = append(peek, make([]byte, left)...)
 				if _, err = io.ReadFull(self.brconn, block[len(peek):]); err != nil {
+					err = cutShort(err)
 					return
 				}
 				return
@@ -406,6 +410,14 @@ func (self *Client) findRTSP() (block []byte, data []byte, err error) {
 	}
 }
 
+// the end of a stream inside a message is not its orderly end
+func cutShort(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+	return err
+}
+
 func (self *Client) readLFLF() (block []byte, data []byte, err error) {
 	const (
 		LF = iota + 1
@@ -420,6 +432,7 @@ func (self *Client) readLFLF() (block []byte, data []byte, err error) {
 	for {
 		var b byte
 		if b, err = self.brconn.ReadByte(); err != nil {
+			err = cutShort(err)
 			return
 		}
 		switch b {
@@ -467,6 +480,7 @@ func (self *Client) readResp(b []byte) (res Response, err error) {
 	if res.ContentLength > 0 {
 		body := &bytes.Buffer{} // grows with what really arrives
 		if _, err = io.CopyN(body, self.brconn, int64(res.ContentLength)); err != nil {
+			err = cutShort(err)
 			return
 		}
 		res.Body = body.Bytes()
-- 
2.43.0


From 0f28eae17153c7e01dcd407d3f747429a63844ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:36 +0000
Subject: [PATCH 26/82] fix: sdp: only rtpmap tells the clock rate

---
 format/rtsp/sdp/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/rtsp/sdp/parser.go b/format/rtsp/sdp/parser.go
index 04b69ff..6ab5cb8 100644
--- a/format/rtsp/sdp/parser.go
+++ b/format/rtsp/sdp/parser.go
@@ -79,7 +79,7 @@ func Parse(content string) (sess Session, medias []Media) {
 							case "H264":
 								media.Type = av.H264
 							}
-							if i, err := strconv.Atoi(keyval[1]); err == nil {
+							if i, err := strconv.Atoi(keyval[1]); err == nil && strings.HasPrefix(typeval[1], "rtpmap:") {
 								media.TimeScale = i
 							}
 							if false {
-- 
2.43.0


From 4f23d7db56e012fc90a17964615f578acea788d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:11 +0000
Subject: [PATCH 27/82] fix: rtsp: a nal unit may be a single byte

---
 format/rtsp/client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 3d6ca04..f40ec44 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -758,7 +758,7 @@ func (self *Stream) makeCodec() (err error) {
 }
 
 func (self *Stream) handleH264Payload(timestamp uint32, packet []byte) (err error) {
-	if len(packet) < 2 {
+	if len(packet) < 1 {
 		err = fmt.Errorf("rtp: h264 packet too short")
 		return
 	}
@@ -875,6 +875,10 @@ func (self *Stream) handleH264Payload(timestamp uint32, packet []byte) (err erro
 			Type: 5 bits
 			The NAL unit payload type as defined in table 7-1 of [1].
 		*/
+		if len(packet) < 2 {
+			err = fmt.Errorf("rtp: h264 packet too short")
+			return
+		}
 		fuIndicator := packet[0]
 		fuHeader := packet[1]
 		isStart := fuHeader&0x80 != 0
-- 
2.43.0


From d040df4a0b1fa03ee7c1d635e7eb9eabc010f706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 28/82] fix: sdp: attributes of other media belong to no track

---
 format/rtsp/sdp/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/rtsp/sdp/parser.go b/format/rtsp/sdp/parser.go
index 6ab5cb8..df3b988 100644
--- a/format/rtsp/sdp/parser.go
+++ b/format/rtsp/sdp/parser.go
@@ -38,6 +38,7 @@ func Parse(content string) (sess Session, medias []Media) {
 
 			switch typeval[0] {
 			case "m":
+				media = nil // attributes belong to the last media line
 				if len(fields) > 0 {
 					switch fields[0] {
 					case "audio", "video":
-- 
2.43.0


From 5c5b5554695e5541548b54c6c0bb73165b8675dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:34 +0000
Subject: [PATCH 29/82] fix: rtsp: nested fragments do not exhaust memory

---
 format/rtsp/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index f40ec44..fe9e382 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -891,6 +891,10 @@ func (self *Stream) handleH264Payload(timestamp uint32, packet []byte) (err erro
 			self.fuBuffer = append(self.fuBuffer, packet[2:]...)
 			if isEnd {
 				self.fuStarted = false
+				if fuHeader&0x1f >= 24 { // a fragmented unit is a single nal unit
+					err = fmt.Errorf("rtp: h264 nested packetization")
+					return
+				}
 				if err = self.handleH264Payload(timestamp, self.fuBuffer); err != nil {
 					return
 				}
-- 
2.43.0


From 1d0c05b0d776f264d1f83cb55c6e5c037ffc04e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 30/82] fix: mp4io: malformed atoms are parse errors

---
 format/mp4/mp4io/atoms.go | 113 +++++++++++++++++++++++++++++---------
 1 file changed, 86 insertions(+), 27 deletions(-)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index e83f72b..e77f3d1 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -257,7 +257,7 @@ func (self *Movie) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -554,7 +554,7 @@ func (self *Track) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -884,7 +884,7 @@ func (self *Media) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1108,7 +1108,7 @@ func (self *MediaInfo) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1217,7 +1217,7 @@ func (self *DataInfo) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1311,7 +1311,7 @@ func (self *DataRefer) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1584,7 +1584,7 @@ func (self *SampleTable) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1751,7 +1751,7 @@ func (self *SampleDesc) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1922,7 +1922,7 @@ func (self *MP4ADesc) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -2141,7 +2141,7 @@ func (self *AVC1Desc) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -2258,14 +2258,18 @@ func (self *TimeToSample) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	var _len_Entries uint32
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]TimeToSampleEntry, _len_Entries)
-	if len(b) < n+LenTimeToSampleEntry*len(self.Entries) {
+	if len(b) < n+LenTimeToSampleEntry*int(_len_Entries) {
 		err = parseErr("TimeToSampleEntry", n+offset, err)
 		return
 	}
+	self.Entries = make([]TimeToSampleEntry, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = GetTimeToSampleEntry(b[n:])
 		n += LenTimeToSampleEntry
@@ -2342,14 +2346,18 @@ func (self *SampleToChunk) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	var _len_Entries uint32
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]SampleToChunkEntry, _len_Entries)
-	if len(b) < n+LenSampleToChunkEntry*len(self.Entries) {
+	if len(b) < n+LenSampleToChunkEntry*int(_len_Entries) {
 		err = parseErr("SampleToChunkEntry", n+offset, err)
 		return
 	}
+	self.Entries = make([]SampleToChunkEntry, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = GetSampleToChunkEntry(b[n:])
 		n += LenSampleToChunkEntry
@@ -2429,14 +2437,18 @@ func (self *CompositionOffset) Unmarshal(b []byte, offset int) (n int, err error
 	}
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	var _len_Entries uint32
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]CompositionOffsetEntry, _len_Entries)
-	if len(b) < n+LenCompositionOffsetEntry*len(self.Entries) {
+	if len(b) < n+LenCompositionOffsetEntry*int(_len_Entries) {
 		err = parseErr("CompositionOffsetEntry", n+offset, err)
 		return
 	}
+	self.Entries = make([]CompositionOffsetEntry, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = GetCompositionOffsetEntry(b[n:])
 		n += LenCompositionOffsetEntry
@@ -2513,14 +2525,18 @@ func (self *SyncSample) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	var _len_Entries uint32
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]uint32, _len_Entries)
-	if len(b) < n+4*len(self.Entries) {
+	if len(b) < n+4*int(_len_Entries) {
 		err = parseErr("uint32", n+offset, err)
 		return
 	}
+	self.Entries = make([]uint32, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = pio.U32BE(b[n:])
 		n += 4
@@ -2580,14 +2596,18 @@ func (self *ChunkOffset) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	var _len_Entries uint32
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]uint32, _len_Entries)
-	if len(b) < n+4*len(self.Entries) {
+	if len(b) < n+4*int(_len_Entries) {
 		err = parseErr("uint32", n+offset, err)
 		return
 	}
+	self.Entries = make([]uint32, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = pio.U32BE(b[n:])
 		n += 4
@@ -2642,7 +2662,7 @@ func (self *MovieFrag) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -2797,7 +2817,7 @@ func (self *TrackFrag) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -2894,7 +2914,7 @@ func (self *MovieExtend) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -3094,14 +3114,18 @@ func (self *SampleSize) Unmarshal(b []byte, offset int) (n int, err error) {
 	if self.SampleSize != 0 {
 		return
 	}
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	var _len_Entries uint32
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]uint32, _len_Entries)
-	if len(b) < n+4*len(self.Entries) {
+	if len(b) < n+4*int(_len_Entries) {
 		err = parseErr("uint32", n+offset, err)
 		return
 	}
+	self.Entries = make([]uint32, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = pio.U32BE(b[n:])
 		n += 4
@@ -3226,10 +3250,13 @@ func (self *TrackFragRun) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	var _len_Entries uint32
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]TrackFragRunEntry, _len_Entries)
 	if self.Flags&TRUN_DATA_OFFSET != 0 {
 		{
 			if len(b) < n+4 {
@@ -3251,6 +3278,10 @@ func (self *TrackFragRun) Unmarshal(b []byte, offset int) (n int, err error) {
 		}
 	}
 
+	if _len_Entries > maxTrackFragRunEntries {
+		err = parseErr("TrackFragRunEntry", n+offset, err)
+		return
+	}
 	for i := 0; i < int(_len_Entries); i++ {
 		var flags uint32
 		if i > 0 {
@@ -3258,23 +3289,40 @@ func (self *TrackFragRun) Unmarshal(b []byte, offset int) (n int, err error) {
 		} else {
 			flags = self.FirstSampleFlags
 		}
-		entry := &self.Entries[i]
+		var entry TrackFragRunEntry
 		if flags&TRUN_SAMPLE_DURATION != 0 {
+			if len(b) < n+4 {
+				err = parseErr("TrackFragRunEntry", n+offset, err)
+				return
+			}
 			entry.Duration = pio.U32BE(b[n:])
 			n += 4
 		}
 		if flags&TRUN_SAMPLE_SIZE != 0 {
+			if len(b) < n+4 {
+				err = parseErr("TrackFragRunEntry", n+offset, err)
+				return
+			}
 			entry.Size = pio.U32BE(b[n:])
 			n += 4
 		}
 		if flags&TRUN_SAMPLE_FLAGS != 0 {
+			if len(b) < n+4 {
+				err = parseErr("TrackFragRunEntry", n+offset, err)
+				return
+			}
 			entry.Flags = pio.U32BE(b[n:])
 			n += 4
 		}
 		if flags&TRUN_SAMPLE_CTS != 0 {
+			if len(b) < n+4 {
+				err = parseErr("TrackFragRunEntry", n+offset, err)
+				return
+			}
 			entry.Cts = pio.U32BE(b[n:])
 			n += 4
 		}
+		self.Entries = append(self.Entries, entry)
 	}
 	return
 }
@@ -3282,6 +3330,9 @@ func (self TrackFragRun) Children() (r []Atom) {
 	return
 }
 
+// entries may take no space in the atom, so their number is limited explicitly
+const maxTrackFragRunEntries = 1 << 20
+
 type TrackFragRunEntry struct {
 	Duration uint32
 	Size     uint32
@@ -3517,10 +3568,18 @@ func (self *TrackFragDecodeTime) Unmarshal(b []byte, offset int) (n int, err err
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	if self.Version != 0 {
+		if len(b) < n+8 {
+			err = parseErr("Time", n+offset, err)
+			return
+		}
 		self.Time = GetTime64(b[n:])
 		n += 8
 	} else {
 
+		if len(b) < n+4 {
+			err = parseErr("Time", n+offset, err)
+			return
+		}
 		self.Time = GetTime32(b[n:])
 		n += 4
 	}
-- 
2.43.0


From 02f387e89e0e80770b91a92033762a43ba5bce7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 31/82] fix: mp4io: file atoms of any size

---
 format/mp4/mp4io/mp4io.go | 50 ++++++++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/format/mp4/mp4io/mp4io.go b/format/mp4/mp4io/mp4io.go
index 13bcae8..a1d9df8 100644
--- a/format/mp4/mp4io/mp4io.go
+++ b/format/mp4/mp4io/mp4io.go
@@ -1,6 +1,7 @@
 package mp4io
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 	"math"
@@ -378,7 +379,10 @@ func (self *ElemStreamDesc) parseDescHdr(b []byte, offset int) (n int, tag uint8
 
 func ReadFileAtoms(r io.ReadSeeker) (atoms []Atom, err error) {
 	for {
-		offset, _ := r.Seek(0, 1)
+		var offset int64
+		if offset, err = r.Seek(0, 1); err != nil {
+			return
+		}
 		taghdr := make([]byte, 8)
 		if _, err = io.ReadFull(r, taghdr); err != nil {
 			if err == io.EOF {
@@ -386,9 +390,36 @@ func ReadFileAtoms(r io.ReadSeeker) (atoms []Atom, err error) {
 			}
 			return
 		}
-		size := pio.U32BE(taghdr[0:])
+		size := int64(pio.U32BE(taghdr[0:]))
 		tag := Tag(pio.U32BE(taghdr[4:]))
 
+		switch size {
+		case 0: // the last atom, up to the end of the file
+			var end int64
+			if end, err = r.Seek(0, 2); err != nil {
+				return
+			}
+			if _, err = r.Seek(offset+8, 0); err != nil {
+				return
+			}
+			size = end - offset
+		case 1: // 64 bit size
+			largesize := make([]byte, 8)
+			if _, err = io.ReadFull(r, largesize); err != nil {
+				if err == io.EOF {
+					err = io.ErrUnexpectedEOF
+				}
+				return
+			}
+			taghdr = append(taghdr, largesize...)
+			size = int64(pio.U64BE(largesize))
+		}
+		hdrlen := int64(len(taghdr))
+		if size < hdrlen || offset > math.MaxInt64-size {
+			err = parseErr("TagSizeInvalid", int(offset), nil)
+			return
+		}
+
 		var atom Atom
 		switch tag {
 		case MOOV:
@@ -398,25 +429,28 @@ func ReadFileAtoms(r io.ReadSeeker) (atoms []Atom, err error) {
 		}
 
 		if atom != nil {
-			b := make([]byte, int(size))
-			if _, err = io.ReadFull(r, b[8:]); err != nil {
+			// the size is not trusted before the data is there
+			var buf bytes.Buffer
+			buf.Write(taghdr[:8])
+			if _, err = io.CopyN(&buf, r, size-hdrlen); err != nil {
+				if err == io.EOF {
+					err = io.ErrUnexpectedEOF
+				}
 				return
 			}
-			copy(b, taghdr)
-			if _, err = atom.Unmarshal(b, int(offset)); err != nil {
+			if _, err = atom.Unmarshal(buf.Bytes(), int(offset)); err != nil {
 				return
 			}
 			atoms = append(atoms, atom)
 		} else {
 			dummy := &Dummy{Tag_: tag}
 			dummy.setPos(int(offset), int(size))
-			if _, err = r.Seek(int64(size)-8, 1); err != nil {
+			if _, err = r.Seek(offset+size, 0); err != nil {
 				return
 			}
 			atoms = append(atoms, dummy)
 		}
 	}
-	return
 }
 
 func printatom(out io.Writer, root Atom, depth int) {
-- 
2.43.0


From ecce1155654a15b4049ffddc9dbc26df1edb07b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 32/82] fix: mp4io: lengths of the elementary stream
 descriptors

---
 format/mp4/mp4io/mp4io.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/format/mp4/mp4io/mp4io.go b/format/mp4/mp4io/mp4io.go
index a1d9df8..c101286 100644
--- a/format/mp4/mp4io/mp4io.go
+++ b/format/mp4/mp4io/mp4io.go
@@ -252,7 +252,7 @@ func (self ElemStreamDesc) fillDecConfigDescHdr(b []byte, datalen int) (n int) {
 	// avg bitrage
 	pio.PutU32BE(b[n:], uint32(0))
 	n += 4
-	n += self.fillDescHdr(b[n:], MP4DecSpecificDescrTag, datalen-n)
+	n += self.fillDescHdr(b[n:], MP4DecSpecificDescrTag, len(self.DecConfig))
 	return
 }
 
@@ -282,8 +282,8 @@ func (self ElemStreamDesc) Marshal(b []byte) (n int) {
 	pio.PutU32BE(b[n:], 0) // Version
 	n += 4
 	datalen := self.Len()
-	n += self.fillESDescHdr(b[n:], datalen-n-self.lenESDescHdr())
-	n += self.fillDecConfigDescHdr(b[n:], datalen-n-self.lenDescHdr()-1)
+	n += self.fillESDescHdr(b[n:], datalen-n-self.lenDescHdr())
+	n += self.fillDecConfigDescHdr(b[n:], datalen-n-2*self.lenDescHdr()-1)
 	copy(b[n:], self.DecConfig)
 	n += len(self.DecConfig)
 	n += self.fillDescHdr(b[n:], 0x06, datalen-n-self.lenDescHdr())
@@ -339,7 +339,7 @@ func (self *ElemStreamDesc) parseDesc(b []byte, offset int) (n int, err error) {
 		}
 
 	case MP4DecSpecificDescrTag:
-		self.DecConfig = b[n:]
+		self.DecConfig = b[n : n+datalen]
 	}
 
 	n += datalen
-- 
2.43.0


From 23d64b404e0fd714229f196f7e15601f85c72f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 33/82] fix: mp4: the decoder config of an audio track is
 written

---
 format/mp4/muxer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index e9d0593..1e20c5a 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -140,9 +140,9 @@ func (self *Stream) fillTrackAtom() (err error) {
 			NumberOfChannels: int16(codec.Config.ChannelLayout.Count()),
 			SampleSize:       int16(codec.SampleFormat().BytesPerSample()),
 			SampleRate:       float64(codec.Config.SampleRate),
-			// Conf: &mp4io.ElemStreamDesc{
-			// 	DecConfig: codec.MPEG4AudioConfigBytes(),
-			// },
+			Conf: &mp4io.ElemStreamDesc{
+				DecConfig: codec.ConfigBytes,
+			},
 		}
 		self.trackAtom.Header.Volume = 1
 		self.trackAtom.Header.AlternateGroup = 1
-- 
2.43.0


From 90b4bf3a9a64fba0ad68f6fcc09f5719ec264c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 34/82] fix: mp4: a new stream does not replace the existing
 ones

---
 format/mp4/muxer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index 1e20c5a..b143f6d 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -46,6 +46,9 @@ func (self *Muxer) addStreams(codecs []interface{}) (err error) {
 		if err != nil {
 			return err
 		}
+		if _, ok := self.streams[cType]; ok {
+			continue
+		}
 		stream := &Stream{Codec: codec}
 
 		stream.sample = &mp4io.SampleTable{
-- 
2.43.0


From 2c1c9c2e003e142c891d5b805c257d43e0c75f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 35/82] fix: mp4: a file without packets is still a file

---
 format/mp4/muxer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index b143f6d..e2f387c 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -248,6 +248,9 @@ func (self *Stream) writePacket(pkt av.Packet, rawdur time.Duration) (err error)
 }
 
 func (self *Muxer) WriteTrailer() (err error) {
+	if err = self.WriteFileHeader(); err != nil {
+		return
+	}
 	for _, stream := range self.streams {
 		if stream.lastpkt != nil {
 			if err = stream.writePacket(*stream.lastpkt, 0); err != nil {
-- 
2.43.0


From c563eab8157dcf486abece1f118347ccbbaf4852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 36/82] fix: mp4: rounding of sample durations does not add up

---
 format/mp4/muxer.go  | 5 ++++-
 format/mp4/stream.go | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index e2f387c..3e9389b 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -202,6 +202,8 @@ func (self *Muxer) WritePacket(pkt av.Packet) (err error) {
 		if err = stream.writePacket(*stream.lastpkt, pkt.Time-stream.lastpkt.Time); err != nil {
 			return
 		}
+	} else {
+		stream.startTime = pkt.Time
 	}
 	stream.lastpkt = &pkt
 	return
@@ -221,7 +223,8 @@ func (self *Stream) writePacket(pkt av.Packet, rawdur time.Duration) (err error)
 		self.sample.SyncSample.Entries = append(self.sample.SyncSample.Entries, uint32(self.sampleIndex+1))
 	}
 
-	duration := uint32(self.timeToTs(rawdur))
+	start := pkt.Time - self.startTime
+	duration := uint32(self.timeToTs(start+rawdur) - self.timeToTs(start))
 	if self.sttsEntry == nil || duration != self.sttsEntry.Duration {
 		self.sample.TimeToSample.Entries = append(self.sample.TimeToSample.Entries, mp4io.TimeToSampleEntry{Duration: duration})
 		self.sttsEntry = &self.sample.TimeToSample.Entries[len(self.sample.TimeToSample.Entries)-1]
diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index fa38171..f214b06 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -21,7 +21,8 @@ type Stream struct {
 	trackAtom *mp4io.Track
 	idx       int
 
-	lastpkt *av.Packet
+	lastpkt   *av.Packet
+	startTime time.Duration
 
 	timeScale int64
 	duration  int64
-- 
2.43.0


From dac86d29d1c6510b48b547f051f70de5a138a7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:56 +0000
Subject: [PATCH 37/82] fix: mp4: long times do not overflow

---
 format/mp4/stream.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index f214b06..9690d65 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -73,19 +73,21 @@ func IsVideo(t int) bool {
 }
 
 func timeToTs(tm time.Duration, timeScale int64) int64 {
-	return int64(tm * time.Duration(timeScale) / time.Second)
+	sec, rem := int64(tm/time.Second), int64(tm%time.Second)
+	return sec*timeScale + rem*timeScale/int64(time.Second)
 }
 
 func tsToTime(ts int64, timeScale int64) time.Duration {
-	return time.Duration(ts) * time.Second / time.Duration(timeScale)
+	sec, rem := ts/timeScale, ts%timeScale
+	return time.Duration(sec)*time.Second + time.Duration(rem)*time.Second/time.Duration(timeScale)
 }
 
 func (self *Stream) timeToTs(tm time.Duration) int64 {
-	return int64(tm * time.Duration(self.timeScale) / time.Second)
+	return timeToTs(tm, self.timeScale)
 }
 
 func (self *Stream) tsToTime(ts int64) time.Duration {
-	return time.Duration(ts) * time.Second / time.Duration(self.timeScale)
+	return tsToTime(ts, self.timeScale)
 }
 
 func (self *Stream) setSampleIndex(index int) (err error) {
-- 
2.43.0


From 60f831f80ecc6dce884704ab9cddf090b519a68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:56 +0000
Subject: [PATCH 38/82] fix: mp4: negative composition offsets

---
 format/mp4/muxer.go  | 5 ++++-
 format/mp4/stream.go | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index 3e9389b..81ce59e 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -233,8 +233,11 @@ func (self *Stream) writePacket(pkt av.Packet, rawdur time.Duration) (err error)
 
 	if self.sample.CompositionOffset != nil {
 		offset := uint32(self.timeToTs(pkt.CTime))
+		table := self.sample.CompositionOffset
+		if pkt.CTime < 0 {
+			table.Version = 1 // signed offsets
+		}
 		if self.cttsEntry == nil || offset != self.cttsEntry.Offset {
-			table := self.sample.CompositionOffset
 			table.Entries = append(table.Entries, mp4io.CompositionOffsetEntry{Offset: offset})
 			self.cttsEntry = &table.Entries[len(table.Entries)-1]
 		}
diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 9690d65..d9167a8 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -314,7 +314,7 @@ func (self *Stream) readPacket() (pkt av.Packet, err error) {
 
 	//println("pts/dts", self.ptsEntryIndex, self.dtsEntryIndex)
 	if self.sample.CompositionOffset != nil && len(self.sample.CompositionOffset.Entries) > 0 {
-		cts := int64(self.sample.CompositionOffset.Entries[self.cttsEntryIndex].Offset)
+		cts := int64(int32(self.sample.CompositionOffset.Entries[self.cttsEntryIndex].Offset))
 		pkt.CTime = self.tsToTime(cts)
 	}
 
-- 
2.43.0


From 14f42212d862f4f8fbd0960a333a6433edb59eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 39/82] fix: mp4: packets that are read carry their type

---
 format/mp4/demuxer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index bea3293..3446106 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -119,6 +119,9 @@ func (self *Demuxer) ReadPacket() (pkt av.Packet, err error) {
 	if pkt, err = chosen.readPacket(); err != nil {
 		return
 	}
+	if pkt.Type, err = CodecType(chosen.Codec); err != nil {
+		return
+	}
 	pkt.Time = tm
 	return
 }
-- 
2.43.0


From aaa2d290f04ea0ab1a658c9beb8f232b2a237a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 40/82] fix: mp4: key frames of a track without or with an
 empty sync table

---
 format/mp4/stream.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index d9167a8..6751ee8 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -202,11 +202,6 @@ func (self *Stream) isSampleValid() bool {
 			return false
 		}
 	}
-	if self.sample.SyncSample != nil {
-		if self.syncSampleIndex >= len(self.sample.SyncSample.Entries) {
-			return false
-		}
-	}
 	if self.sample.SampleSize.SampleSize != 0 {
 		if self.sampleIndex >= len(self.sample.SampleSize.Entries) {
 			return false
@@ -307,9 +302,12 @@ func (self *Stream) readPacket() (pkt av.Packet, err error) {
 	}
 
 	if self.sample.SyncSample != nil {
-		if self.sample.SyncSample.Entries[self.syncSampleIndex]-1 == uint32(self.sampleIndex) {
+		entries := self.sample.SyncSample.Entries
+		if self.syncSampleIndex < len(entries) && entries[self.syncSampleIndex]-1 == uint32(self.sampleIndex) {
 			pkt.IsKeyFrame = true
 		}
+	} else if _, ok := self.Codec.(*h264.Codec); ok {
+		pkt.IsKeyFrame = true // without a table every sample is a sync sample
 	}
 
 	//println("pts/dts", self.ptsEntryIndex, self.dtsEntryIndex)
-- 
2.43.0


From 408ca8b07f8de7a8a9972191a0a3f3686cde0cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 41/82] fix: mp4: missing sample data is not the end of the
 file

---
 format/mp4/demuxer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index 3446106..7190764 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -38,6 +38,9 @@ func (self *Demuxer) readat(pos int64, b []byte) (err error) {
 		return
 	}
 	if _, err = io.ReadFull(self.r, b); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		return
 	}
 	return
-- 
2.43.0


From 60e773e8e28978a0ad5cb82c7bc20afd39b1b588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 42/82] fix: mp4: every track is read to its end

---
 format/mp4/demuxer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index 7190764..2cceb9f 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -111,12 +111,16 @@ func (self *Demuxer) ReadPacket() (pkt av.Packet, err error) {
 
 	var chosen *Stream
 	for _, stream := range self.streams {
+		if !stream.isSampleValid() {
+			continue
+		}
 		if chosen == nil || stream.tsToTime(stream.dts) < chosen.tsToTime(chosen.dts) {
 			chosen = stream
 		}
 	}
-	if false {
-		fmt.Printf("ReadPacket: chosen index=%v time=%v\n", chosen.idx, chosen.tsToTime(chosen.dts))
+	if chosen == nil {
+		err = io.EOF
+		return
 	}
 	tm := chosen.tsToTime(chosen.dts)
 	if pkt, err = chosen.readPacket(); err != nil {
-- 
2.43.0


From a577a2dcd54b652b412e38f3d68dc62db8e504e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 43/82] fix: mp4: tracks whose samples have all the same size

---
 format/mp4/mp4io/atoms.go | 16 +++++++++++-----
 format/mp4/stream.go      | 24 ++++--------------------
 2 files changed, 15 insertions(+), 25 deletions(-)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index e77f3d1..a843ac0 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -3050,7 +3050,10 @@ type SampleSize struct {
 	Version    uint8
 	Flags      uint32
 	SampleSize uint32
-	Entries    []uint32
+
+	// number of samples if SampleSize != 0, len(Entries) otherwise
+	SampleCount uint32
+	Entries     []uint32
 	AtomPos
 }
 
@@ -3068,6 +3071,8 @@ func (self SampleSize) marshal(b []byte) (n int) {
 	pio.PutU32BE(b[n:], self.SampleSize)
 	n += 4
 	if self.SampleSize != 0 {
+		pio.PutU32BE(b[n:], self.SampleCount)
+		n += 4
 		return
 	}
 	pio.PutU32BE(b[n:], uint32(len(self.Entries)))
@@ -3083,10 +3088,10 @@ func (self SampleSize) Len() (n int) {
 	n += 1
 	n += 3
 	n += 4
+	n += 4
 	if self.SampleSize != 0 {
 		return
 	}
-	n += 4
 	n += 4 * len(self.Entries)
 	return
 }
@@ -3111,9 +3116,6 @@ func (self *SampleSize) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	self.SampleSize = pio.U32BE(b[n:])
 	n += 4
-	if self.SampleSize != 0 {
-		return
-	}
 	if len(b) < n+4 {
 		err = parseErr("_len_Entries", n+offset, err)
 		return
@@ -3121,6 +3123,10 @@ func (self *SampleSize) Unmarshal(b []byte, offset int) (n int, err error) {
 	var _len_Entries uint32
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
+	self.SampleCount = _len_Entries
+	if self.SampleSize != 0 {
+		return
+	}
 	if len(b) < n+4*int(_len_Entries) {
 		err = parseErr("uint32", n+offset, err)
 		return
diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 6751ee8..06a2769 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -202,12 +202,7 @@ func (self *Stream) isSampleValid() bool {
 			return false
 		}
 	}
-	if self.sample.SampleSize.SampleSize != 0 {
-		if self.sampleIndex >= len(self.sample.SampleSize.Entries) {
-			return false
-		}
-	}
-	return true
+	return self.sampleIndex < self.sampleCount()
 }
 
 func (self *Stream) incSampleIndex() (duration int64) {
@@ -263,21 +258,10 @@ func (self *Stream) incSampleIndex() (duration int64) {
 }
 
 func (self *Stream) sampleCount() int {
-	if self.sample.SampleSize.SampleSize == 0 {
-		chunkGroupIndex := 0
-		count := 0
-		for chunkIndex := range self.sample.ChunkOffset.Entries {
-			n := int(self.sample.SampleToChunk.Entries[chunkGroupIndex].SamplesPerChunk)
-			count += n
-			if chunkGroupIndex+1 < len(self.sample.SampleToChunk.Entries) &&
-				uint32(chunkIndex+1) == self.sample.SampleToChunk.Entries[chunkGroupIndex+1].FirstChunk {
-				chunkGroupIndex++
-			}
-		}
-		return count
-	} else {
-		return len(self.sample.SampleSize.Entries)
+	if self.sample.SampleSize.SampleSize != 0 {
+		return int(self.sample.SampleSize.SampleCount)
 	}
+	return len(self.sample.SampleSize.Entries)
 }
 
 func (self *Stream) readPacket() (pkt av.Packet, err error) {
-- 
2.43.0


From c7d0480bb3a87c97f5f0765d8bad043afbbe1fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 44/82] fix: mp4: composition offsets belong to video tracks

---
 format/mp4/stream.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 06a2769..0768e7f 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -13,8 +13,6 @@ import (
 	"github.com/pkg/errors"
 )
 
-const codecTypeAudioBit = 0x1
-
 type Stream struct {
 	Codec interface{}
 
@@ -65,11 +63,11 @@ func CodecType(codec interface{}) (int, error) {
 }
 
 func IsAudio(t int) bool {
-	return t&codecTypeAudioBit != 0
+	return t == av.AAC
 }
 
 func IsVideo(t int) bool {
-	return t&codecTypeAudioBit == 0
+	return t == av.H264
 }
 
 func timeToTs(tm time.Duration, timeScale int64) int64 {
-- 
2.43.0


From e898862ebbc091c79ea0f65afb76fe12dfd32e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 45/82] fix: mp4: seeking finds the key frame at or before the
 time

---
 format/mp4/demuxer.go | 14 ++++++++++----
 format/mp4/stream.go  | 13 +++++++++++--
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index 2cceb9f..f98c207 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -142,18 +142,24 @@ func (self *Demuxer) CurrentTime() (tm time.Duration) {
 }
 
 func (self *Demuxer) SeekToTime(tm time.Duration) (err error) {
-	for sType, stream := range self.streams {
-		if IsVideo(sType) {
+	if err = self.probe(); err != nil {
+		return
+	}
+
+	var video *Stream
+	for _, stream := range self.streams {
+		if stream.isVideo() && stream.sampleCount() > 0 {
 			if err = stream.seekToTime(tm); err != nil {
 				return
 			}
 			tm = stream.tsToTime(stream.dts)
+			video = stream
 			break
 		}
 	}
 
-	for sType, stream := range self.streams {
-		if !IsVideo(sType) {
+	for _, stream := range self.streams {
+		if stream != video && stream.sampleCount() > 0 {
 			if err = stream.seekToTime(tm); err != nil {
 				return
 			}
diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 0768e7f..326ed51 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -70,6 +70,11 @@ func IsVideo(t int) bool {
 	return t == av.H264
 }
 
+func (self *Stream) isVideo() bool {
+	cType, err := CodecType(self.Codec)
+	return err == nil && IsVideo(cType)
+}
+
 func timeToTs(tm time.Duration, timeScale int64) int64 {
 	sec, rem := int64(tm/time.Second), int64(tm%time.Second)
 	return sec*timeScale + rem*timeScale/int64(time.Second)
@@ -315,7 +320,11 @@ func (self *Stream) seekToTime(tm time.Duration) (err error) {
 }
 
 func (self *Stream) timeToSampleIndex(tm time.Duration) int {
+	// the last tick that is not after tm
 	targetTs := self.timeToTs(tm)
+	if self.tsToTime(targetTs+1) <= tm {
+		targetTs++
+	}
 	targetIndex := 0
 
 	startTs := int64(0)
@@ -324,7 +333,7 @@ func (self *Stream) timeToSampleIndex(tm time.Duration) int {
 	endIndex := 0
 	found := false
 	for _, entry := range self.sample.TimeToSample.Entries {
-		endTs = startTs + int64(entry.Count*entry.Duration)
+		endTs = startTs + int64(entry.Count)*int64(entry.Duration)
 		endIndex = startIndex + int(entry.Count)
 		if targetTs >= startTs && targetTs < endTs {
 			targetIndex = startIndex + int((targetTs-startTs)/int64(entry.Duration))
@@ -344,7 +353,7 @@ func (self *Stream) timeToSampleIndex(tm time.Duration) int {
 	if self.sample.SyncSample != nil {
 		entries := self.sample.SyncSample.Entries
 		for i := len(entries) - 1; i >= 0; i-- {
-			if entries[i]-1 < uint32(targetIndex) {
+			if entries[i] <= uint32(targetIndex+1) {
 				targetIndex = int(entries[i] - 1)
 				break
 			}
-- 
2.43.0


From 56e8f190b744539262eff0fdf3cec5271533e367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 46/82] fix: mp4: probing again starts at the beginning of the
 file

---
 format/mp4/demuxer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index f98c207..bdc3b7f 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -54,6 +54,9 @@ func (self *Demuxer) probe() (err error) {
 	var moov *mp4io.Movie
 	var atoms []mp4io.Atom
 
+	if _, err = self.r.Seek(0, 0); err != nil {
+		return
+	}
 	if atoms, err = mp4io.ReadFileAtoms(self.r); err != nil {
 		return
 	}
-- 
2.43.0


From 933e4d4e8ad888db3bbd9f93c40338758d41c17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 47/82] fix: mp4: sample tables are checked before use

---
 format/mp4/demuxer.go | 24 ++++++++++++++++++++++--
 format/mp4/stream.go  | 42 ++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 62 insertions(+), 4 deletions(-)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index bdc3b7f..6e78ef9 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -33,7 +33,21 @@ func (self *Demuxer) Streams() (streams []interface{}, err error) {
 	return
 }
 
-func (self *Demuxer) readat(pos int64, b []byte) (err error) {
+// samples of this size are only read if the file is long enough
+const bigSampleSize = 1 << 20
+
+func (self *Demuxer) readat(pos int64, size uint32) (b []byte, err error) {
+	if size >= bigSampleSize {
+		var end int64
+		if end, err = self.r.Seek(0, 2); err != nil {
+			return
+		}
+		if pos+int64(size) > end {
+			err = io.ErrUnexpectedEOF
+			return
+		}
+	}
+	b = make([]byte, size)
 	if _, err = self.r.Seek(pos, 0); err != nil {
 		return
 	}
@@ -82,7 +96,7 @@ func (self *Demuxer) probe() (err error) {
 			demuxer:   self,
 			idx:       i,
 		}
-		if atrack.Media != nil && atrack.Media.Info != nil && atrack.Media.Info.Sample != nil {
+		if atrack.Media != nil && atrack.Media.Header != nil && atrack.Media.Info != nil && atrack.Media.Info.Sample != nil {
 			stream.sample = atrack.Media.Info.Sample
 			stream.timeScale = int64(atrack.Media.Header.TimeScale)
 		} else {
@@ -94,11 +108,17 @@ func (self *Demuxer) probe() (err error) {
 			if stream.Codec, err = h264.FromDecoderConfig(avc1.Data); err != nil {
 				return
 			}
+			if err = stream.checkTables(); err != nil {
+				return
+			}
 			self.streams = append(self.streams, stream)
 		} else if esds := atrack.GetElemStreamDesc(); esds != nil {
 			if stream.Codec, err = aac.FromMPEG4AudioConfigBytes(esds.DecConfig); err != nil {
 				return
 			}
+			if err = stream.checkTables(); err != nil {
+				return
+			}
 			self.streams = append(self.streams, stream)
 		}
 	}
diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 326ed51..26265fc 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -93,6 +93,45 @@ func (self *Stream) tsToTime(ts int64) time.Duration {
 	return tsToTime(ts, self.timeScale)
 }
 
+// checkTables refuses tables that samples cannot be located with.
+func (self *Stream) checkTables() (err error) {
+	sample := self.sample
+	if self.timeScale <= 0 {
+		return fmt.Errorf("mp4: stream[%d]: time scale %d is invalid", self.idx, self.timeScale)
+	}
+	if sample.TimeToSample == nil || sample.SampleToChunk == nil || sample.SampleSize == nil || sample.ChunkOffset == nil {
+		return fmt.Errorf("mp4: stream[%d]: sample table is incomplete", self.idx)
+	}
+
+	if len(sample.SampleToChunk.Entries) == 0 && len(sample.ChunkOffset.Entries) > 0 {
+		return fmt.Errorf("mp4: stream[%d]: sample to chunk table is empty", self.idx)
+	}
+	for _, entry := range sample.SampleToChunk.Entries {
+		if entry.SamplesPerChunk == 0 {
+			return fmt.Errorf("mp4: stream[%d]: chunk without samples", self.idx)
+		}
+	}
+
+	// runs of no samples are of no use
+	var stts []mp4io.TimeToSampleEntry
+	for _, entry := range sample.TimeToSample.Entries {
+		if entry.Count > 0 {
+			stts = append(stts, entry)
+		}
+	}
+	sample.TimeToSample.Entries = stts
+	if sample.CompositionOffset != nil {
+		var ctts []mp4io.CompositionOffsetEntry
+		for _, entry := range sample.CompositionOffset.Entries {
+			if entry.Count > 0 {
+				ctts = append(ctts, entry)
+			}
+		}
+		sample.CompositionOffset.Entries = ctts
+	}
+	return
+}
+
 func (self *Stream) setSampleIndex(index int) (err error) {
 	found := false
 	start := 0
@@ -283,8 +322,7 @@ func (self *Stream) readPacket() (pkt av.Packet, err error) {
 	}
 
 	sampleOffset := int64(chunkOffset) + self.sampleOffsetInChunk
-	pkt.Data = make([]byte, sampleSize)
-	if err = self.demuxer.readat(sampleOffset, pkt.Data); err != nil {
+	if pkt.Data, err = self.demuxer.readat(sampleOffset, sampleSize); err != nil {
 		return
 	}
 
-- 
2.43.0


From 12e7399dda6af52f78cd00823218f1c385ba9c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 48/82] fix: mp4: the decoder config of a video track is never
 empty

---
 format/mp4/muxer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index 81ce59e..bce69d5 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -116,6 +116,12 @@ func (self *Stream) fillTrackAtom() (err error) {
 	switch codec := self.Codec.(type) {
 	case *h264.Codec:
 		width, height := codec.W, codec.H
+		config := codec.ConfigBytes
+		if len(config) == 0 {
+			c := *codec
+			c.ToConfig()
+			config = c.ConfigBytes
+		}
 		self.sample.SampleDesc.AVC1Desc = &mp4io.AVC1Desc{
 			DataRefIdx:           1,
 			HorizontalResolution: 72,
@@ -125,7 +131,7 @@ func (self *Stream) fillTrackAtom() (err error) {
 			FrameCount:           1,
 			Depth:                24,
 			ColorTableId:         -1,
-			Conf:                 &mp4io.AVC1Conf{Data: codec.ConfigBytes},
+			Conf:                 &mp4io.AVC1Conf{Data: config},
 		}
 		self.trackAtom.Media.Handler = &mp4io.HandlerRefer{
 			SubType: [4]byte{'v', 'i', 'd', 'e'},
-- 
2.43.0


From 9557037b19fd1f3f26a99e4f851a85942be67767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 49/82] fix: h264: a codec keeps the decoder config it was made
 of

---
 codec/h264/h264.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index 66da903..4ac72d3 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -577,6 +577,7 @@ func FromDecoderConfig(b []byte) (c *Codec, err error) {
 		nc.AddSPSPPS(pps)
 	}
 
+	nc.ConfigBytes = append([]byte(nil), b...)
 	c = nc
 	return
 }
-- 
2.43.0


From caffdbcf1e1c96ca90c73e84e3e5c2f67504bf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 50/82] fix: bits: short reads are not the end of the data, 64
 bits fit at any position

---
 utils/bits/bits.go          | 18 ++++++++++++------
 utils/bits/golomb_reader.go |  2 +-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/utils/bits/bits.go b/utils/bits/bits.go
index 7c1247d..ebc999a 100644
--- a/utils/bits/bits.go
+++ b/utils/bits/bits.go
@@ -1,7 +1,6 @@
 package bits
 
 import (
-	"fmt"
 	"io"
 )
 
@@ -12,15 +11,22 @@ type Reader struct {
 }
 
 func (r *Reader) ReadBits64(n int) (bits uint64, err error) {
+	if n > 56 { // has to fit together with the bits left of the last byte
+		var hi, lo uint64
+		if hi, err = r.ReadBits64(n - 32); err != nil {
+			return
+		}
+		if lo, err = r.ReadBits64(32); err != nil {
+			return
+		}
+		bits = hi<<32 | lo
+		return
+	}
 	if r.n < n {
 		var b [8]byte
 		var got int
 		want := (n - r.n + 7) / 8
-		if got, err = r.R.Read(b[:want]); err != nil {
-			return
-		}
-		if got < want {
-			err = fmt.Errorf("bits: EOF")
+		if got, err = io.ReadFull(r.R, b[:want]); err != nil {
 			return
 		}
 		for i := 0; i < got; i++ {
diff --git a/utils/bits/golomb_reader.go b/utils/bits/golomb_reader.go
index d4b3c55..bda2865 100644
--- a/utils/bits/golomb_reader.go
+++ b/utils/bits/golomb_reader.go
@@ -12,7 +12,7 @@ type GolombBitReader struct {
 
 func (r *GolombBitReader) ReadBit() (res uint, err error) {
 	if r.left == 0 {
-		if _, err = r.R.Read(r.buf[:]); err != nil {
+		if _, err = io.ReadFull(r.R, r.buf[:]); err != nil {
 			return
 		}
 		r.left = 8
-- 
2.43.0


From 5a83a5995f039e4bc2df48e5472d7c3ae0184f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 51/82] fix: bits: the last bytes of the data are read

---
 utils/bits/bits.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/utils/bits/bits.go b/utils/bits/bits.go
index ebc999a..90604f5 100644
--- a/utils/bits/bits.go
+++ b/utils/bits/bits.go
@@ -52,18 +52,12 @@ func (r *Reader) ReadBits(n int) (bits uint, err error) {
 
 func (r *Reader) Read(p []byte) (n int, err error) {
 	for n < len(p) {
-		want := 8
-		if len(p)-n < want {
-			want = len(p) - n
-		}
 		var bits uint64
-		if bits, err = r.ReadBits64(want * 8); err != nil {
+		if bits, err = r.ReadBits64(8); err != nil {
 			break
 		}
-		for i := 0; i < want; i++ {
-			p[n+i] = byte(bits >> uint((want-i-1)*8))
-		}
-		n += want
+		p[n] = byte(bits)
+		n++
 	}
 	return
 }
-- 
2.43.0


From 75b88afac1104770b6791edc7fbaff935c066df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 52/82] fix: bits: writing across the 64 bit buffer keeps every
 bit

---
 utils/bits/bits.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/bits/bits.go b/utils/bits/bits.go
index 90604f5..5fec11b 100644
--- a/utils/bits/bits.go
+++ b/utils/bits/bits.go
@@ -71,14 +71,14 @@ type Writer struct {
 func (w *Writer) WriteBits64(bits uint64, n int) (err error) {
 	if w.n+n > 64 {
 		move := uint(64 - w.n)
-		mask := bits >> move
-		w.bits = (w.bits << move) | mask
+		rest := uint(n) - move
+		w.bits = (w.bits << move) | bits>>rest
 		w.n = 64
 		if err = w.FlushBits(); err != nil {
 			return
 		}
 		n -= int(move)
-		bits ^= (mask << move)
+		bits &= 1<<rest - 1
 	}
 	w.bits = (w.bits << uint(n)) | bits
 	w.n += n
-- 
2.43.0


From 6415aa3ac095d08efc7ef285ad8bf7e119f900ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 53/82] fix: bits: negative exponential golomb codes

---
 utils/bits/golomb_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/bits/golomb_reader.go b/utils/bits/golomb_reader.go
index bda2865..d4b270e 100644
--- a/utils/bits/golomb_reader.go
+++ b/utils/bits/golomb_reader.go
@@ -59,7 +59,7 @@ func (r *GolombBitReader) ReadSE() (res uint, err error) {
 	if res&0x01 != 0 {
 		res = (res + 1) / 2
 	} else {
-		res = -res / 2
+		res = -(res / 2)
 	}
 	return
 }
-- 
2.43.0


From 4118d06c20d9bc304c209fc12ab4dd9c90f3de6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:42 +0000
Subject: [PATCH 54/82] fix: avtool: rewriting flv touches no other file

---
 cmd/avtool/seqhdr.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/cmd/avtool/seqhdr.go b/cmd/avtool/seqhdr.go
index 896a17b..6b0b3f9 100644
--- a/cmd/avtool/seqhdr.go
+++ b/cmd/avtool/seqhdr.go
@@ -25,9 +25,6 @@ func doMoveH264SeqhdrToKeyFrame(src, dst string) error {
 	r := flv.NewDemuxer(fr)
 	w := flv.NewMuxer(format.NewStreamsWriteSeeker(fw, nil))
 
-	rawf, _ := os.Create("/tmp/a.h264")
-	defer rawf.Close()
-
 	var h264seqhdr *h264.Codec
 
 	for {
-- 
2.43.0


From f74f589a1db1192968869bc649849ffe8e5038bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:42 +0000
Subject: [PATCH 55/82] fix: avtool: a key frame before the first sequence
 header

---
 cmd/avtool/seqhdr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/avtool/seqhdr.go b/cmd/avtool/seqhdr.go
index 6b0b3f9..ac32408 100644
--- a/cmd/avtool/seqhdr.go
+++ b/cmd/avtool/seqhdr.go
@@ -25,7 +25,7 @@ func doMoveH264SeqhdrToKeyFrame(src, dst string) error {
 	r := flv.NewDemuxer(fr)
 	w := flv.NewMuxer(format.NewStreamsWriteSeeker(fw, nil))
 
-	var h264seqhdr *h264.Codec
+	h264seqhdr := h264.NewCodec()
 
 	for {
 		pkt, err := r.ReadPacket()
-- 
2.43.0


From a98fa2c68cdfb152379993aa51d0e82abf97324d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:42 +0000
Subject: [PATCH 56/82] fix: avtool: the end of the source is the success of
 the flv tools

---
 cmd/avtool/avcc2annexb.go | 4 ++++
 cmd/avtool/seqhdr.go      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/cmd/avtool/avcc2annexb.go b/cmd/avtool/avcc2annexb.go
index 5796989..1e2ada0 100644
--- a/cmd/avtool/avcc2annexb.go
+++ b/cmd/avtool/avcc2annexb.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"io"
 	"os"
 
 	"github.com/nareix/joy5/av"
@@ -27,6 +28,9 @@ func doAvcc2Annexb(src, dst string) error {
 
 	for {
 		pkt, err := r.ReadPacket()
+		if err == io.EOF {
+			return w.WriteFileHeader()
+		}
 		if err != nil {
 			return err
 		}
diff --git a/cmd/avtool/seqhdr.go b/cmd/avtool/seqhdr.go
index ac32408..3540350 100644
--- a/cmd/avtool/seqhdr.go
+++ b/cmd/avtool/seqhdr.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"io"
 	"os"
 
 	"github.com/nareix/joy5/av"
@@ -29,6 +30,9 @@ func doMoveH264SeqhdrToKeyFrame(src, dst string) error {
 
 	for {
 		pkt, err := r.ReadPacket()
+		if err == io.EOF {
+			return w.WriteFileHeader()
+		}
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 0791c3e58960ef602860b0498a3cdbf3262c564e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:42 +0000
Subject: [PATCH 57/82] fix: avtool: the flv tools report an error when the
 file is closed

---
 cmd/avtool/avcc2annexb.go | 8 ++++++--
 cmd/avtool/seqhdr.go      | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/cmd/avtool/avcc2annexb.go b/cmd/avtool/avcc2annexb.go
index 1e2ada0..9f5af8c 100644
--- a/cmd/avtool/avcc2annexb.go
+++ b/cmd/avtool/avcc2annexb.go
@@ -10,7 +10,7 @@ import (
 	"github.com/nareix/joy5/format/flv"
 )
 
-func doAvcc2Annexb(src, dst string) error {
+func doAvcc2Annexb(src, dst string) (err error) {
 	fr, err := os.Open(src)
 	if err != nil {
 		return err
@@ -21,7 +21,11 @@ func doAvcc2Annexb(src, dst string) error {
 	if err != nil {
 		return err
 	}
-	defer fw.Close()
+	defer func() {
+		if cerr := fw.Close(); err == nil {
+			err = cerr
+		}
+	}()
 
 	r := flv.NewDemuxer(fr)
 	w := flv.NewMuxer(format.NewStreamsWriteSeeker(fw, nil))
diff --git a/cmd/avtool/seqhdr.go b/cmd/avtool/seqhdr.go
index 3540350..9bfe309 100644
--- a/cmd/avtool/seqhdr.go
+++ b/cmd/avtool/seqhdr.go
@@ -10,7 +10,7 @@ import (
 	"github.com/nareix/joy5/format/flv"
 )
 
-func doMoveH264SeqhdrToKeyFrame(src, dst string) error {
+func doMoveH264SeqhdrToKeyFrame(src, dst string) (err error) {
 	fr, err := os.Open(src)
 	if err != nil {
 		return err
@@ -21,7 +21,11 @@ func doMoveH264SeqhdrToKeyFrame(src, dst string) error {
 	if err != nil {
 		return err
 	}
-	defer fw.Close()
+	defer func() {
+		if cerr := fw.Close(); err == nil {
+			err = cerr
+		}
+	}()
 
 	r := flv.NewDemuxer(fr)
 	w := flv.NewMuxer(format.NewStreamsWriteSeeker(fw, nil))
-- 
2.43.0


From 46bf9a9800e1b863a8900c8305920e65e6156ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 58/82] fix: avtool: bench players do not wait for the time the
 file starts at

---
 cmd/avtool/benchrtmp.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cmd/avtool/benchrtmp.go b/cmd/avtool/benchrtmp.go
index 5b1e062..f613f1f 100644
--- a/cmd/avtool/benchrtmp.go
+++ b/cmd/avtool/benchrtmp.go
@@ -35,6 +35,14 @@ func doBenchRtmp(listenAddr, file string) (err error) {
 		r.Close()
 	}
 
+	var filePktTimeStart time.Duration // a file does not have to start at 0
+	for _, pkt := range filePkts {
+		if pkt.Type == av.H264 || pkt.Type == av.AAC {
+			filePktTimeStart = pkt.Time
+			break
+		}
+	}
+
 	var lis net.Listener
 	if lis, err = net.Listen("tcp", listenAddr); err != nil {
 		return
@@ -74,7 +82,9 @@ func doBenchRtmp(listenAddr, file string) (err error) {
 				if err := c.WritePacket(pkt); err != nil {
 					return
 				}
-				time.Sleep(pkt.Time - time.Now().Sub(start))
+				if pkt.Type == av.H264 || pkt.Type == av.AAC {
+					time.Sleep(pkt.Time - filePktTimeStart - time.Now().Sub(start))
+				}
 			}
 		}
 	}
-- 
2.43.0


From d752d06fb52baa60a98a2bee799dab6f0eeca4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:21 +0000
Subject: [PATCH 59/82] fix: amf3: a boolean is its marker alone

---
 format/flv/flvio/amf3.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/format/flv/flvio/amf3.go b/format/flv/flvio/amf3.go
index 38b26bf..18a4c0e 100644
--- a/format/flv/flvio/amf3.go
+++ b/format/flv/flvio/amf3.go
@@ -55,17 +55,9 @@ func parseAMF3Val(depth int, b []byte, n *int) (val interface{}, err error) {
 		val = nil
 
 	case amf3falsemarker:
-		if _, err = pio.ReadU8(b, n); err != nil {
-			err = amfParseErr("boolean:false", b, *n, err)
-			return
-		}
 		val = false
 
 	case amf3truemarker:
-		if _, err = pio.ReadU8(b, n); err != nil {
-			err = amfParseErr("boolean:true", b, *n, err)
-			return
-		}
 		val = true
 
 	case amf3integermarker:
-- 
2.43.0


From 22afc7aece667ec398314725b85d5c65405b6dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:21 +0000
Subject: [PATCH 60/82] fix: amf3: the dense part of arrays

---
 format/flv/flvio/amf3.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/format/flv/flvio/amf3.go b/format/flv/flvio/amf3.go
index 18a4c0e..a46547a 100644
--- a/format/flv/flvio/amf3.go
+++ b/format/flv/flvio/amf3.go
@@ -2,6 +2,7 @@ package flvio
 
 import (
 	"fmt"
+	"strconv"
 	"time"
 
 	"github.com/nareix/joy5/utils/bits/pio"
@@ -193,7 +194,7 @@ func readDate(b []byte, n *int) (val time.Time, err error) {
 	return
 }
 
-func readArray(depth int, b []byte, n *int) (val AMFMap, err error) {
+func readArray(depth int, b []byte, n *int) (val interface{}, err error) {
 	l, err := readU29(b, n)
 	if err != nil {
 		err = amfParseErr("array.u29", b, *n, err)
@@ -207,7 +208,7 @@ func readArray(depth int, b []byte, n *int) (val AMFMap, err error) {
 
 	l = l >> 1
 	var k string
-	val = AMFMap{}
+	assoc := AMFMap{}
 	for {
 		k, err = readString(b, n)
 		if err != nil {
@@ -222,11 +223,30 @@ func readArray(depth int, b []byte, n *int) (val AMFMap, err error) {
 			err = amfParseErr("array.val", b, *n, err)
 			return
 		}
-		val = val.Set(k, v)
+		assoc = assoc.Set(k, v)
 	}
 	if l == 0 {
+		val = assoc
+		return
+	}
+
+	dense := AMFArray{}
+	for i := 0; i < l; i++ {
+		var v interface{}
+		if v, err = parseAMF3Val(depth+1, b, n); err != nil {
+			err = amfParseErr("array.dense", b, *n, err)
+			return
+		}
+		dense = append(dense, v)
+	}
+	if len(assoc) == 0 {
+		val = dense
 		return
 	}
+	for i, v := range dense {
+		assoc = assoc.Set(strconv.Itoa(i), v)
+	}
+	val = assoc
 	return
 }
 
-- 
2.43.0


From 13fcec3e1aae5f6fd3300a9c17ae5c324f12150b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:21 +0000
Subject: [PATCH 61/82] fix: amf3: objects with both sealed and dynamic members

---
 format/flv/flvio/amf3.go | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/format/flv/flvio/amf3.go b/format/flv/flvio/amf3.go
index a46547a..c95ead2 100644
--- a/format/flv/flvio/amf3.go
+++ b/format/flv/flvio/amf3.go
@@ -283,6 +283,20 @@ func readObject(depth int, b []byte, n *int) (val AMFMap, err error) {
 	val = AMFMap{}
 
 	var k string
+	keys := []string{}
+	for i := 0; i < l; i++ {
+		if k, err = readString(b, n); err != nil {
+			return
+		}
+		keys = append(keys, k)
+	}
+	for i := 0; i < l; i++ {
+		var v interface{}
+		if v, err = parseAMF3Val(depth+1, b, n); err != nil {
+			return
+		}
+		val = val.Set(keys[i], v)
+	}
 	if isDynamic {
 		for {
 			k, err = readString(b, n)
@@ -300,21 +314,6 @@ func readObject(depth int, b []byte, n *int) (val AMFMap, err error) {
 			}
 			val = val.Set(k, v)
 		}
-	} else {
-		keys := []string{}
-		for i := 0; i < l; i++ {
-			if k, err = readString(b, n); err != nil {
-				return
-			}
-			keys = append(keys, k)
-		}
-		for i := 0; i < l; i++ {
-			var v interface{}
-			if v, err = parseAMF3Val(depth+1, b, n); err != nil {
-				return
-			}
-			val = val.Set(keys[i], v)
-		}
 	}
 	return
 }
-- 
2.43.0


From 82c312beb156f64ba27daab845800939a31f949e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:21 +0000
Subject: [PATCH 62/82] fix: amf3: a cut date is an error

---
 format/flv/flvio/amf3.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/flv/flvio/amf3.go b/format/flv/flvio/amf3.go
index c95ead2..bec38dc 100644
--- a/format/flv/flvio/amf3.go
+++ b/format/flv/flvio/amf3.go
@@ -189,6 +189,10 @@ func readDate(b []byte, n *int) (val time.Time, err error) {
 	}
 
 	t, err := readBEFloat64(b, n)
+	if err != nil {
+		err = amfParseErr("date.time", b, *n, err)
+		return
+	}
 	ts := int64(t)
 	val = time.Unix(ts/1000, (ts%1000)*1000000)
 	return
-- 
2.43.0


From 908b043fad285997c07a8d6f3fcf9f02284b42e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:26 +0000
Subject: [PATCH 63/82] fix: h264: crop units of interlaced and other than
 4:2:0 video

---
 codec/h264/h264.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index 4ac72d3..c48f8d9 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -686,6 +686,7 @@ func ParseSPS(data []byte) (s SPSInfo, err error) {
 		return
 	}
 
+	chromaArrayType := uint(1)
 	if s.ProfileIdc == 100 || s.ProfileIdc == 110 ||
 		s.ProfileIdc == 122 || s.ProfileIdc == 244 ||
 		s.ProfileIdc == 44 || s.ProfileIdc == 83 ||
@@ -696,11 +697,16 @@ func ParseSPS(data []byte) (s SPSInfo, err error) {
 			return
 		}
 
+		chromaArrayType = chroma_format_idc
 		if chroma_format_idc == 3 {
 			// residual_colour_transform_flag
-			if _, err = r.ReadBit(); err != nil {
+			var separate uint
+			if separate, err = r.ReadBit(); err != nil {
 				return
 			}
+			if separate != 0 {
+				chromaArrayType = 0
+			}
 		}
 
 		// bit_depth_luma_minus8
@@ -846,8 +852,15 @@ func ParseSPS(data []byte) (s SPSInfo, err error) {
 		}
 	}
 
-	s.Width = (s.MbWidth * 16) - s.CropLeft*2 - s.CropRight*2
-	s.Height = ((2 - frame_mbs_only_flag) * s.MbHeight * 16) - s.CropTop*2 - s.CropBottom*2
+	cropUnitX, cropUnitY := uint(1), 2-frame_mbs_only_flag
+	if chromaArrayType == 1 || chromaArrayType == 2 {
+		cropUnitX = 2
+	}
+	if chromaArrayType == 1 {
+		cropUnitY *= 2
+	}
+	s.Width = (s.MbWidth * 16) - (s.CropLeft+s.CropRight)*cropUnitX
+	s.Height = ((2 - frame_mbs_only_flag) * s.MbHeight * 16) - (s.CropTop+s.CropBottom)*cropUnitY
 
 	vui_parameter_present_flag, err := r.ReadBit()
 	if err != nil {
-- 
2.43.0


From cb815ec64a4c17b5d677985330641ad0237c5c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:27 +0000
Subject: [PATCH 64/82] fix: h264: all scaling lists of 4:4:4 video

---
 codec/h264/h264.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index c48f8d9..845539b 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -728,7 +728,11 @@ func ParseSPS(data []byte) (s SPSInfo, err error) {
 		}
 
 		if seq_scaling_matrix_present_flag != 0 {
-			for i := 0; i < 8; i++ {
+			lists := 8
+			if chroma_format_idc == 3 {
+				lists = 12
+			}
+			for i := 0; i < lists; i++ {
 				var seq_scaling_list_present_flag uint
 				if seq_scaling_list_present_flag, err = r.ReadBit(); err != nil {
 					return
-- 
2.43.0


From bf21c6105541bf6fde05d6c46a394722ac8ac5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:29 +0000
Subject: [PATCH 65/82] fix: aac: configurations with an explicit sample rate

---
 codec/aac/aac.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codec/aac/aac.go b/codec/aac/aac.go
index e6af2b8..a442a14 100644
--- a/codec/aac/aac.go
+++ b/codec/aac/aac.go
@@ -332,6 +332,8 @@ func (c MPEG4AudioConfig) IsValid() bool {
 func (c *MPEG4AudioConfig) complete() error {
 	if int(c.SampleRateIndex) < len(sampleRateTable) {
 		c.SampleRate = sampleRateTable[c.SampleRateIndex]
+	} else if c.SampleRateIndex > 0xf { // the rate itself
+		c.SampleRate = int(c.SampleRateIndex)
 	} else {
 		return fmt.Errorf("InvalidSampleRateIndex(%d)", c.SampleRateIndex)
 	}
-- 
2.43.0


From 75315ca36a6a734752281b9ace5c21ab6a38e814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:12 +0000
Subject: [PATCH 66/82] fix: aac: object type numbers, the escape code is 31

---
 codec/aac/aac.go | 84 ++++++++++++++++++++++++------------------------
 1 file changed, 42 insertions(+), 42 deletions(-)

diff --git a/codec/aac/aac.go b/codec/aac/aac.go
index a442a14..5ffdda8 100644
--- a/codec/aac/aac.go
+++ b/codec/aac/aac.go
@@ -80,48 +80,48 @@ func (self SampleFormat) IsPlanar() bool {
 
 // copied from libavcodec/mpeg4audio.h
 const (
-	AOT_AAC_MAIN        = 1 + iota  ///< Y                       Main
-	AOT_AAC_LC                      ///< Y                       Low Complexity
-	AOT_AAC_SSR                     ///< N (code in SoC repo)    Scalable Sample Rate
-	AOT_AAC_LTP                     ///< Y                       Long Term Prediction
-	AOT_SBR                         ///< Y                       Spectral Band Replication
-	AOT_AAC_SCALABLE                ///< N                       Scalable
-	AOT_TWINVQ                      ///< N                       Twin Vector Quantizer
-	AOT_CELP                        ///< N                       Code Excited Linear Prediction
-	AOT_HVXC                        ///< N                       Harmonic Vector eXcitation Coding
-	AOT_TTSI            = 12 + iota ///< N                       Text-To-Speech Interface
-	AOT_MAINSYNTH                   ///< N                       Main Synthesis
-	AOT_WAVESYNTH                   ///< N                       Wavetable Synthesis
-	AOT_MIDI                        ///< N                       General MIDI
-	AOT_SAFX                        ///< N                       Algorithmic Synthesis and Audio Effects
-	AOT_ER_AAC_LC                   ///< N                       Error Resilient Low Complexity
-	AOT_ER_AAC_LTP      = 19 + iota ///< N                       Error Resilient Long Term Prediction
-	AOT_ER_AAC_SCALABLE             ///< N                       Error Resilient Scalable
-	AOT_ER_TWINVQ                   ///< N                       Error Resilient Twin Vector Quantizer
-	AOT_ER_BSAC                     ///< N                       Error Resilient Bit-Sliced Arithmetic Coding
-	AOT_ER_AAC_LD                   ///< N                       Error Resilient Low Delay
-	AOT_ER_CELP                     ///< N                       Error Resilient Code Excited Linear Prediction
-	AOT_ER_HVXC                     ///< N                       Error Resilient Harmonic Vector eXcitation Coding
-	AOT_ER_HILN                     ///< N                       Error Resilient Harmonic and Individual Lines plus Noise
-	AOT_ER_PARAM                    ///< N                       Error Resilient Parametric
-	AOT_SSC                         ///< N                       SinuSoidal Coding
-	AOT_PS                          ///< N                       Parametric Stereo
-	AOT_SURROUND                    ///< N                       MPEG Surround
-	AOT_ESCAPE                      ///< Y                       Escape Value
-	AOT_L1                          ///< Y                       Layer 1
-	AOT_L2                          ///< Y                       Layer 2
-	AOT_L3                          ///< Y                       Layer 3
-	AOT_DST                         ///< N                       Direct Stream Transfer
-	AOT_ALS                         ///< Y                       Audio LosslesS
-	AOT_SLS                         ///< N                       Scalable LosslesS
-	AOT_SLS_NON_CORE                ///< N                       Scalable LosslesS (non core)
-	AOT_ER_AAC_ELD                  ///< N                       Error Resilient Enhanced Low Delay
-	AOT_SMR_SIMPLE                  ///< N                       Symbolic Music Representation Simple
-	AOT_SMR_MAIN                    ///< N                       Symbolic Music Representation Main
-	AOT_USAC_NOSBR                  ///< N                       Unified Speech and Audio Coding (no SBR)
-	AOT_SAOC                        ///< N                       Spatial Audio Object Coding
-	AOT_LD_SURROUND                 ///< N                       Low Delay MPEG Surround
-	AOT_USAC                        ///< N                       Unified Speech and Audio Coding
+	AOT_AAC_MAIN        = 1 + iota ///< Y                       Main
+	AOT_AAC_LC                     ///< Y                       Low Complexity
+	AOT_AAC_SSR                    ///< N (code in SoC repo)    Scalable Sample Rate
+	AOT_AAC_LTP                    ///< Y                       Long Term Prediction
+	AOT_SBR                        ///< Y                       Spectral Band Replication
+	AOT_AAC_SCALABLE               ///< N                       Scalable
+	AOT_TWINVQ                     ///< N                       Twin Vector Quantizer
+	AOT_CELP                       ///< N                       Code Excited Linear Prediction
+	AOT_HVXC                       ///< N                       Harmonic Vector eXcitation Coding
+	AOT_TTSI            = 3 + iota ///< N                       Text-To-Speech Interface
+	AOT_MAINSYNTH                  ///< N                       Main Synthesis
+	AOT_WAVESYNTH                  ///< N                       Wavetable Synthesis
+	AOT_MIDI                       ///< N                       General MIDI
+	AOT_SAFX                       ///< N                       Algorithmic Synthesis and Audio Effects
+	AOT_ER_AAC_LC                  ///< N                       Error Resilient Low Complexity
+	AOT_ER_AAC_LTP      = 4 + iota ///< N                       Error Resilient Long Term Prediction
+	AOT_ER_AAC_SCALABLE            ///< N                       Error Resilient Scalable
+	AOT_ER_TWINVQ                  ///< N                       Error Resilient Twin Vector Quantizer
+	AOT_ER_BSAC                    ///< N                       Error Resilient Bit-Sliced Arithmetic Coding
+	AOT_ER_AAC_LD                  ///< N                       Error Resilient Low Delay
+	AOT_ER_CELP                    ///< N                       Error Resilient Code Excited Linear Prediction
+	AOT_ER_HVXC                    ///< N                       Error Resilient Harmonic Vector eXcitation Coding
+	AOT_ER_HILN                    ///< N                       Error Resilient Harmonic and Individual Lines plus Noise
+	AOT_ER_PARAM                   ///< N                       Error Resilient Parametric
+	AOT_SSC                        ///< N                       SinuSoidal Coding
+	AOT_PS                         ///< N                       Parametric Stereo
+	AOT_SURROUND                   ///< N                       MPEG Surround
+	AOT_ESCAPE                     ///< Y                       Escape Value
+	AOT_L1                         ///< Y                       Layer 1
+	AOT_L2                         ///< Y                       Layer 2
+	AOT_L3                         ///< Y                       Layer 3
+	AOT_DST                        ///< N                       Direct Stream Transfer
+	AOT_ALS                        ///< Y                       Audio LosslesS
+	AOT_SLS                        ///< N                       Scalable LosslesS
+	AOT_SLS_NON_CORE               ///< N                       Scalable LosslesS (non core)
+	AOT_ER_AAC_ELD                 ///< N                       Error Resilient Enhanced Low Delay
+	AOT_SMR_SIMPLE                 ///< N                       Symbolic Music Representation Simple
+	AOT_SMR_MAIN                   ///< N                       Symbolic Music Representation Main
+	AOT_USAC_NOSBR                 ///< N                       Unified Speech and Audio Coding (no SBR)
+	AOT_SAOC                       ///< N                       Spatial Audio Object Coding
+	AOT_LD_SURROUND                ///< N                       Low Delay MPEG Surround
+	AOT_USAC                       ///< N                       Unified Speech and Audio Coding
 )
 
 type ChannelLayout uint16
-- 
2.43.0


From c8209923d5158170b2b9ba58514490218c338e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:13 +0000
Subject: [PATCH 67/82] fix: mp4: sample rates that do not fit the sample entry

---
 format/mp4/muxer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index bce69d5..29ed475 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -3,6 +3,7 @@ package mp4
 import (
 	"bufio"
 	"fmt"
+	"math"
 	"reflect"
 	"time"
 
@@ -144,11 +145,15 @@ func (self *Stream) fillTrackAtom() (err error) {
 		self.trackAtom.Header.TrackHeight = float64(height)
 
 	case *aac.Codec:
+		rate := float64(codec.Config.SampleRate)
+		if rate > math.MaxUint16 {
+			rate = 0 // does not fit, readers take the one of the decoder config
+		}
 		self.sample.SampleDesc.MP4ADesc = &mp4io.MP4ADesc{
 			DataRefIdx:       1,
 			NumberOfChannels: int16(codec.Config.ChannelLayout.Count()),
 			SampleSize:       int16(codec.SampleFormat().BytesPerSample()),
-			SampleRate:       float64(codec.Config.SampleRate),
+			SampleRate:       rate,
 			Conf: &mp4io.ElemStreamDesc{
 				DecConfig: codec.ConfigBytes,
 			},
-- 
2.43.0


From b226b6cab510330ae7dc0949d9292f5804be44c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:29 +0000
Subject: [PATCH 68/82] fix: rtsp: report a codec change once, without losing
 packets and with the new sets

The sets of the description were fed in again with every packet: they undid
a change and raised it again. The packet behind a change was dropped, and
with SkipErrRtpBlock the track fell silent.
---
 format/rtsp/client.go | 87 ++++++++++++++++++++++++++++---------------
 1 file changed, 58 insertions(+), 29 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index fe9e382..f2e454c 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -665,6 +665,8 @@ func (self *Client) HandleCodecChange() (_newcli *Client, err error) {
 
 		if newstream.isCodecChange() {
 			newstream.clearCodecChange()
+			newstream.Codec = h264.NewCodec()
+			newstream.updateH264Codec()
 		}
 		newcli.streams = append(newcli.streams, newstream)
 	}
@@ -716,33 +718,33 @@ func (self *Stream) makeCodec() (err error) {
 	if media.PayloadType >= 96 && media.PayloadType <= 127 {
 		switch media.Type {
 		case av.H264:
-			for _, nalu := range media.SpropParameterSets {
-				if len(nalu) > 0 {
-					self.handleH264Payload(0, nalu)
+			if self.Codec == nil { // later on the sets in the stream are newer
+				codec := h264.NewCodec()
+				add := func(nalu []byte) {
+					if len(nalu) > 0 {
+						self.handleH264Payload(0, nalu)
+						codec.AddSPSPPS(nalu)
+					}
+				}
+
+				for _, nalu := range media.SpropParameterSets {
+					add(nalu)
 				}
-			}
 
-			if len(self.sps) == 0 || len(self.pps) == 0 {
-				if nalus, typ := h264.SplitNALUs(media.Config); typ != h264.NALU_RAW {
-					for _, nalu := range nalus {
-						if len(nalu) > 0 {
-							self.handleH264Payload(0, nalu)
+				if len(self.sps) == 0 || len(self.pps) == 0 {
+					if nalus, typ := h264.SplitNALUs(media.Config); typ != h264.NALU_RAW {
+						for _, nalu := range nalus {
+							add(nalu)
 						}
 					}
 				}
-			}
 
-			if self.Codec == nil {
-				self.Codec = h264.NewCodec()
+				self.Codec = codec
+				self.clearCodecChange()
+				self.pkt, self.gotpkt = av.Packet{}, false
 			}
 
-			if len(self.pps) > 0 {
-				self.Codec.(*h264.Codec).AddSPSPPS(self.pps)
-			}
-			if len(self.sps) > 0 {
-				self.Codec.(*h264.Codec).AddSPSPPS(self.sps)
-				self.Codec.(*h264.Codec).ToConfig()
-			}
+			self.updateH264Codec()
 
 		case av.AAC:
 			if self.Codec, err = aac.FromMPEG4AudioConfigBytes(media.Config); err != nil {
@@ -757,6 +759,16 @@ func (self *Stream) makeCodec() (err error) {
 	return
 }
 
+func (self *Stream) updateH264Codec() {
+	if len(self.pps) > 0 {
+		self.Codec.(*h264.Codec).AddSPSPPS(self.pps)
+	}
+	if len(self.sps) > 0 {
+		self.Codec.(*h264.Codec).AddSPSPPS(self.sps)
+		self.Codec.(*h264.Codec).ToConfig()
+	}
+}
+
 func (self *Stream) handleH264Payload(timestamp uint32, packet []byte) (err error) {
 	if len(packet) < 1 {
 		err = fmt.Errorf("rtp: h264 packet too short")
@@ -952,11 +964,6 @@ func (self *Stream) handleH264Payload(timestamp uint32, packet []byte) (err erro
 }
 
 func (self *Stream) handleRtpPacket(packet []byte) (err error) {
-	if self.isCodecChange() {
-		err = ErrCodecChange
-		return
-	}
-
 	if self.client != nil && self.client.DebugRtp {
 		fmt.Println("rtp: packet", "len", len(packet))
 		dumpsize := len(packet)
@@ -1134,7 +1141,23 @@ func (self *Client) handleBlock(block []byte) (pkt av.Packet, ok bool, err error
 		}
 	}
 
-	if stream.gotpkt {
+	return self.nextPacket()
+}
+
+// nextPacket returns what the blocks so far completed, a codec change goes first.
+func (self *Client) nextPacket() (pkt av.Packet, ok bool, err error) {
+	for _, stream := range self.streams {
+		if stream.isCodecChange() {
+			err = ErrCodecChange
+			return
+		}
+	}
+
+	for _, stream := range self.streams {
+		if !stream.gotpkt {
+			continue
+		}
+
 		/*
 			TODO: sync AV by rtcp NTP timestamp
 			https://tools.ietf.org/html/rfc3550
@@ -1147,8 +1170,10 @@ func (self *Client) handleBlock(block []byte) (pkt av.Packet, ok bool, err error
 		stream.started = true
 		stream.lasttimestamp = stream.timestamp
 
-		ok = true
 		pkt = stream.pkt
+		stream.pkt = av.Packet{}
+		stream.gotpkt = false
+
 		scale := int64(stream.timeScale())
 		pkt.Time = time.Duration(stream.ticks/scale)*time.Second +
 			time.Duration(stream.ticks%scale)*time.Second/time.Duration(scale)
@@ -1163,8 +1188,8 @@ func (self *Client) handleBlock(block []byte) (pkt av.Packet, ok bool, err error
 			fmt.Println("rtp: pktout", pkt.Time, len(pkt.Data))
 		}
 
-		stream.pkt = av.Packet{}
-		stream.gotpkt = false
+		ok = true
+		return
 	}
 
 	return
@@ -1175,6 +1200,11 @@ func (self *Client) readPacket() (pkt av.Packet, err error) {
 		return
 	}
 
+	var ok bool
+	if pkt, ok, err = self.nextPacket(); ok || err != nil {
+		return
+	}
+
 	for {
 		var res Response
 		for {
@@ -1190,7 +1220,6 @@ func (self *Client) readPacket() (pkt av.Packet, err error) {
 			}
 		}
 
-		var ok bool
 		if pkt, ok, err = self.handleBlock(res.Block); err != nil {
 			return
 		}
-- 
2.43.0


From 1fac8b838edb6dc496a802c0373454a1f0d805e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 69/82] fix: rtsp: a track without a control attribute is set
 up under the stream address, one below an address with a final slash without
 doubling it

---
 format/rtsp/client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index f2e454c..e6f0e64 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -557,8 +557,10 @@ func (self *Client) Setup(idx []int) (err error) {
 		control := self.streams[si].Sdp.Control
 		if strings.HasPrefix(control, "rtsp://") {
 			uri = control
+		} else if control == "" || control == "*" { // RFC 2326 C.1.1
+			uri = self.requestUri
 		} else {
-			uri = self.requestUri + "/" + control
+			uri = strings.TrimSuffix(self.requestUri, "/") + "/" + control
 		}
 		req := Request{Method: "SETUP", Uri: uri}
 		req.Header = append(req.Header, fmt.Sprintf("Transport: RTP/AVP/TCP;unicast;interleaved=%d-%d", si*2, si*2+1))
-- 
2.43.0


From 0d2c0237b3174b1a45c8a555c3e7dd61355cbbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 70/82] fix: rtsp/sdp: a format attribute with a single
 parameter counts

---
 format/rtsp/sdp/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/rtsp/sdp/parser.go b/format/rtsp/sdp/parser.go
index df3b988..f297913 100644
--- a/format/rtsp/sdp/parser.go
+++ b/format/rtsp/sdp/parser.go
@@ -88,7 +88,7 @@ func Parse(content string) (sess Session, medias []Media) {
 							}
 						}
 						keyval = strings.Split(field, ";")
-						if len(keyval) > 1 {
+						if len(keyval) > 1 || strings.HasPrefix(typeval[1], "fmtp:") {
 							for _, field := range keyval {
 								keyval := strings.SplitN(field, "=", 2)
 								if len(keyval) == 2 {
-- 
2.43.0


From adf3bb795eea11c85df411e2c617ecde3eb168e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 71/82] fix: rtsp: a realm with a comma is not cut off

---
 format/rtsp/client.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index e6f0e64..1d2ed0f 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -271,6 +271,17 @@ func (self *Client) handleResp(res *Response) (err error) {
 	return
 }
 
+// splitQuoted splits at the commas that are not inside quotes.
+func splitQuoted(s string) []string {
+	quoted := false
+	return strings.FieldsFunc(s, func(c rune) bool {
+		if c == '"' {
+			quoted = !quoted
+		}
+		return c == ',' && !quoted
+	})
+}
+
 func (self *Client) handle401(res *Response) (err error) {
 	/*
 		RTSP/1.0 401 Unauthorized
@@ -283,7 +294,7 @@ func (self *Client) handle401(res *Response) (err error) {
 	var realm, nonce string
 
 	if len(hdrval) == 2 {
-		for _, field := range strings.Split(hdrval[1], ",") {
+		for _, field := range splitQuoted(hdrval[1]) {
 			field = strings.Trim(field, ", ")
 			if keyval := strings.SplitN(field, "=", 2); len(keyval) == 2 {
 				key := keyval[0]
-- 
2.43.0


From 4e03c30e860dc91f8296843b09b429ac6c51dee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 72/82] fix: rtsp: a request of the server is not taken for a
 refused PLAY

---
 format/rtsp/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 1d2ed0f..d4202a4 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -1227,7 +1227,7 @@ func (self *Client) readPacket() (pkt av.Packet, err error) {
 			if len(res.Block) > 0 {
 				break
 			}
-			if res.StatusCode/100 != 2 && self.playCseq != "" && res.Headers.Get("CSeq") == self.playCseq {
+			if res.StatusCode > 0 && res.StatusCode/100 != 2 && self.playCseq != "" && res.Headers.Get("CSeq") == self.playCseq {
 				err = fmt.Errorf("rtsp: Play failed, StatusCode=%d", res.StatusCode)
 				return
 			}
-- 
2.43.0


From 2a5018c9cb44d1de90c8dfd2233255fe1bbcca5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:39 +0000
Subject: [PATCH 73/82] fix: rtmp: a message given up by its sender (Abort) is
 dropped

A peer that aborts a message and goes on with the next one on the same chunk
stream had its session ended with MsgDataLeft.
---
 format/rtmp/msg.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/format/rtmp/msg.go b/format/rtmp/msg.go
index 70021f3..b9c7179 100644
--- a/format/rtmp/msg.go
+++ b/format/rtmp/msg.go
@@ -109,6 +109,7 @@ const (
 	msgtypeidWindowAckSize    = 5
 	msgtypeidSetPeerBandwidth = 6
 	msgtypeidSetChunkSize     = 1
+	msgtypeidAbort            = 2
 	msgtypeidCommandMsgAMF0   = 20
 	msgtypeidCommandMsgAMF3   = 17
 	msgtypeidDataMsgAMF0      = flvio.TAG_AMF0
@@ -881,6 +882,19 @@ func (c *Conn) handleEvent(msg *message) (handled bool, err error) {
 		c.ReadMaxChunkSize = int(v)
 		return
 
+	case msgtypeidAbort:
+		var n int
+		var csid uint32
+		if csid, err = pio.ReadU32BE(msg.msgdata, &n); err != nil {
+			return
+		}
+		handled = true
+		// the rest of the message that was being received there will not come
+		if cs := c.readcsmap[csid]; cs != nil {
+			cs.msgdataleft = 0
+		}
+		return
+
 	case msgtypeidWindowAckSize:
 		var n int
 		var acksize uint32
-- 
2.43.0


From a42396c11a6154c1286bd0a7046034a195dd01d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:08 +0000
Subject: [PATCH 74/82] fix: rtmp: a server that refuses with _error is heard

connect and createStream answered with _error were waited for until the 15 s
deadline, and the code of the refusal was lost.
---
 format/rtmp/cmd.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/format/rtmp/cmd.go b/format/rtmp/cmd.go
index 506949e..adfc158 100644
--- a/format/rtmp/cmd.go
+++ b/format/rtmp/cmd.go
@@ -304,6 +304,14 @@ func (c *Conn) checkLevelStatus(cmd *command) (err error) {
 	return
 }
 
+// errorResult is the error that an _error answer carries
+func (c *Conn) errorResult(cmd *command) (err error) {
+	if err = c.checkLevelStatus(cmd); err == nil {
+		err = fmt.Errorf("Refused")
+	}
+	return
+}
+
 func (c *Conn) checkCreateStreamResult(cmd *command) (ok bool, avmsgsid uint32) {
 	if len(cmd.params) > 0 {
 		_avmsgsid, _ := cmd.params[0].(float64)
@@ -344,6 +352,10 @@ func (c *Conn) writeConnect(path string) (err error) {
 			return
 		}
 
+		if cmd.name == "_error" && int(cmd.transid) == 1 {
+			err = fmt.Errorf("CommandConnectFailed: %s", c.errorResult(cmd))
+			return
+		}
 		if cmd.name == "_result" {
 			if err = c.checkLevelStatus(cmd); err != nil {
 				err = fmt.Errorf("CommandConnectFailed: %s", err)
@@ -389,6 +401,10 @@ func (c *Conn) connectPublish() (err error) {
 		if cmd, err = c.readCommand(); err != nil {
 			return
 		}
+		if cmd.name == "_error" && int(cmd.transid) == transid {
+			err = fmt.Errorf("CreateStreamFailed: %s", c.errorResult(cmd))
+			return
+		}
 		if cmd.name == "_result" && int(cmd.transid) == transid {
 			var ok bool
 			if ok, c.avmsgsid = c.checkCreateStreamResult(cmd); !ok {
@@ -452,6 +468,10 @@ func (c *Conn) connectPlay() (err error) {
 			return
 		}
 
+		if cmd.name == "_error" && int(cmd.transid) == 2 {
+			err = fmt.Errorf("CreateStreamFailed: %s", c.errorResult(cmd))
+			return
+		}
 		if cmd.name == "_result" {
 			var ok bool
 			if ok, c.avmsgsid = c.checkCreateStreamResult(cmd); !ok {
-- 
2.43.0


From d938c06e40b31cc841b6391d44ee7c8134d757bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:58 +0000
Subject: [PATCH 75/82] fix: mp4: the next track id of a recording was in use

---
 format/mp4/muxer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index 29ed475..04b4266 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -282,7 +282,7 @@ func (self *Muxer) WriteTrailer() (err error) {
 		PreferredRate:   1,
 		PreferredVolume: 1,
 		Matrix:          [9]int32{0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000},
-		NextTrackId:     2,
+		NextTrackId:     int32(len(self.streams) + 1),
 	}
 
 	maxDur := time.Duration(0)
-- 
2.43.0


From 2655b54ab9c30ba01935881495134d89e3462d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 76/82] fix: mp4: durations of more than 13 hours wrapped
 around

---
 format/mp4/muxer.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index 04b4266..bde0754 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -112,7 +112,7 @@ func (self *Muxer) addStreams(codecs []interface{}) (err error) {
 
 func (self *Stream) fillTrackAtom() (err error) {
 	self.trackAtom.Media.Header.TimeScale = int32(self.timeScale)
-	self.trackAtom.Media.Header.Duration = int32(self.duration)
+	self.trackAtom.Media.Header.Duration = headerDuration(self.duration)
 
 	switch codec := self.Codec.(type) {
 	case *h264.Codec:
@@ -173,6 +173,15 @@ func (self *Stream) fillTrackAtom() (err error) {
 	return
 }
 
+// headerDuration is what a header of version 0 says: all ones if the duration
+// does not fit in its 32 bits.
+func headerDuration(ts int64) int32 {
+	if ts > math.MaxUint32 {
+		ts = math.MaxUint32
+	}
+	return int32(uint32(ts))
+}
+
 func (self *Muxer) WriteFileHeader() (err error) {
 	if self.fileHdrWritten {
 		return
@@ -225,6 +234,12 @@ func (self *Stream) writePacket(pkt av.Packet, rawdur time.Duration) (err error)
 		err = fmt.Errorf("mp4: stream#%v time=%v < lasttime=%v", pkt.Type, pkt.Time, self.lastpkt.Time)
 		return
 	}
+	start := pkt.Time - self.startTime
+	ticks := self.timeToTs(start+rawdur) - self.timeToTs(start)
+	if ticks > math.MaxUint32 {
+		err = fmt.Errorf("mp4: stream#%v no packet for %v after time=%v", pkt.Type, rawdur, pkt.Time)
+		return
+	}
 
 	if _, err = self.muxer.bufw.Write(pkt.Data); err != nil {
 		return
@@ -234,8 +249,7 @@ func (self *Stream) writePacket(pkt av.Packet, rawdur time.Duration) (err error)
 		self.sample.SyncSample.Entries = append(self.sample.SyncSample.Entries, uint32(self.sampleIndex+1))
 	}
 
-	start := pkt.Time - self.startTime
-	duration := uint32(self.timeToTs(start+rawdur) - self.timeToTs(start))
+	duration := uint32(ticks)
 	if self.sttsEntry == nil || duration != self.sttsEntry.Duration {
 		self.sample.TimeToSample.Entries = append(self.sample.TimeToSample.Entries, mp4io.TimeToSampleEntry{Duration: duration})
 		self.sttsEntry = &self.sample.TimeToSample.Entries[len(self.sample.TimeToSample.Entries)-1]
@@ -292,14 +306,14 @@ func (self *Muxer) WriteTrailer() (err error) {
 			return
 		}
 		dur := stream.tsToTime(stream.duration)
-		stream.trackAtom.Header.Duration = int32(timeToTs(dur, timeScale))
+		stream.trackAtom.Header.Duration = headerDuration(timeToTs(dur, timeScale))
 		if dur > maxDur {
 			maxDur = dur
 		}
 		moov.Tracks = append(moov.Tracks, stream.trackAtom)
 	}
 	moov.Header.TimeScale = int32(timeScale)
-	moov.Header.Duration = int32(timeToTs(maxDur, timeScale))
+	moov.Header.Duration = headerDuration(timeToTs(maxDur, timeScale))
 
 	if err = self.bufw.Flush(); err != nil {
 		return
-- 
2.43.0


From 58530f9f5f2b7eac48a2f54ed61a1ba42774538a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:17 +0000
Subject: [PATCH 77/82] fix: mp4: recordings of more than 4 GiB were corrupted

---
 format/mp4/muxer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index bde0754..1171c7f 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -21,6 +21,7 @@ type Muxer struct {
 	wpos           int64
 	streams        map[int]*Stream
 	fileHdrWritten bool
+	mdatsize       int64
 }
 
 func NewMuxer(w av.StreamsWriteSeeker) (*Muxer, error) {
@@ -218,6 +219,9 @@ func (self *Muxer) WritePacket(pkt av.Packet) (err error) {
 	if !ok {
 		return errors.Errorf("Unsuported stream for packet type:%v", pkt.Type)
 	}
+	if 8+self.mdatsize+int64(len(pkt.Data)) > math.MaxUint32 {
+		return errors.Errorf("mp4: file is full, sizes and offsets have 32 bits")
+	}
 	if stream.lastpkt != nil {
 		if err = stream.writePacket(*stream.lastpkt, pkt.Time-stream.lastpkt.Time); err != nil {
 			return
@@ -226,6 +230,7 @@ func (self *Muxer) WritePacket(pkt av.Packet) (err error) {
 		stream.startTime = pkt.Time
 	}
 	stream.lastpkt = &pkt
+	self.mdatsize += int64(len(pkt.Data))
 	return
 }
 
-- 
2.43.0


From 45592f9a84c8b1c82300453506ce01f9dd18425d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:49 +0000
Subject: [PATCH 78/82] fix: rtmp: the handshake timeout of a server was
 ignored

---
 format/rtmp/server.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/format/rtmp/server.go b/format/rtmp/server.go
index 981a6c1..a9a7b7b 100644
--- a/format/rtmp/server.go
+++ b/format/rtmp/server.go
@@ -30,9 +30,11 @@ type Server struct {
 	LogEvent func(c *Conn, nc net.Conn, e int)
 }
 
+const defaultHandshakeTimeout = time.Second * 15
+
 func NewServer() *Server {
 	return &Server{
-		HandshakeTimeout: time.Second * 10,
+		HandshakeTimeout: defaultHandshakeTimeout,
 	}
 }
 
@@ -62,7 +64,11 @@ func (s *Server) HandleNetConn(nc net.Conn) {
 		fn(c, nc, EventConnConnected)
 	}
 
-	nc.SetDeadline(time.Now().Add(time.Second * 15))
+	timeout := s.HandshakeTimeout
+	if timeout == 0 {
+		timeout = defaultHandshakeTimeout
+	}
+	nc.SetDeadline(time.Now().Add(timeout))
 	if err := c.Prepare(StageGotPublishOrPlayCommand, 0); err != nil {
 		if fn := s.LogEvent; fn != nil {
 			fn(c, nc, EventHandshakeFailed)
-- 
2.43.0


From 80248717412444aa87ba8cb10cd24bea0129b738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:41 +0000
Subject: [PATCH 79/82] fix: rtsp: the media time limit was ignored, a limit
 that was lifted stayed

---
 format/rtsp/client.go | 13 +++++++++----
 format/rtsp/conn.go   |  8 ++++++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index d4202a4..eaacadf 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -502,12 +502,12 @@ func (self *Client) readResp(b []byte) (res Response, err error) {
 	return
 }
 
-func (self *Client) poll() (res Response, err error) {
+func (self *Client) poll(timeout time.Duration) (res Response, err error) {
 	var block []byte
 	var rtsp []byte
 	var headers []byte
 
-	self.conn.Timeout = self.RtspTimeout
+	self.conn.Timeout = timeout
 	for {
 		if block, rtsp, err = self.findRTSP(); err != nil {
 			return
@@ -533,7 +533,7 @@ func (self *Client) poll() (res Response, err error) {
 
 func (self *Client) ReadResponse() (res Response, err error) {
 	for {
-		if res, err = self.poll(); err != nil {
+		if res, err = self.poll(self.RtspTimeout); err != nil {
 			return
 		}
 		if res.StatusCode > 0 {
@@ -1218,10 +1218,15 @@ func (self *Client) readPacket() (pkt av.Packet, err error) {
 		return
 	}
 
+	timeout := self.RtpTimeout
+	if timeout == 0 {
+		timeout = self.RtspTimeout
+	}
+
 	for {
 		var res Response
 		for {
-			if res, err = self.poll(); err != nil {
+			if res, err = self.poll(timeout); err != nil {
 				return
 			}
 			if len(res.Block) > 0 {
diff --git a/format/rtsp/conn.go b/format/rtsp/conn.go
index 20775e1..cfd54d9 100644
--- a/format/rtsp/conn.go
+++ b/format/rtsp/conn.go
@@ -11,15 +11,19 @@ type connWithTimeout struct {
 }
 
 func (self connWithTimeout) Read(p []byte) (n int, err error) {
+	var t time.Time
 	if self.Timeout > 0 {
-		self.Conn.SetReadDeadline(time.Now().Add(self.Timeout))
+		t = time.Now().Add(self.Timeout)
 	}
+	self.Conn.SetReadDeadline(t)
 	return self.Conn.Read(p)
 }
 
 func (self connWithTimeout) Write(p []byte) (n int, err error) {
+	var t time.Time
 	if self.Timeout > 0 {
-		self.Conn.SetWriteDeadline(time.Now().Add(self.Timeout))
+		t = time.Now().Add(self.Timeout)
 	}
+	self.Conn.SetWriteDeadline(t)
 	return self.Conn.Write(p)
 }
-- 
2.43.0


From edbb9d8eee8c016f6a9d985d11e4d5d47190f754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:53 +0000
Subject: [PATCH 80/82] fix: avtool: bench players get each packet a packet too
 early

---
 cmd/avtool/benchrtmp.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/avtool/benchrtmp.go b/cmd/avtool/benchrtmp.go
index f613f1f..9590f2d 100644
--- a/cmd/avtool/benchrtmp.go
+++ b/cmd/avtool/benchrtmp.go
@@ -79,12 +79,12 @@ func doBenchRtmp(listenAddr, file string) (err error) {
 		} else {
 			start := time.Now()
 			for _, pkt := range filePkts {
-				if err := c.WritePacket(pkt); err != nil {
-					return
-				}
 				if pkt.Type == av.H264 || pkt.Type == av.AAC {
 					time.Sleep(pkt.Time - filePktTimeStart - time.Now().Sub(start))
 				}
+				if err := c.WritePacket(pkt); err != nil {
+					return
+				}
 			}
 		}
 	}
-- 
2.43.0


From 21281f2400412915291051289c5c5fe65a10456f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:28 +0000
Subject: [PATCH 81/82] fix: avtool: conv of a source without packets made no
 destination

A recording that holds no packets was converted to nothing at all: the
destination was not created (an older file stayed as it was), an
unsupported or unreachable one went unnoticed, and the exit status was 0.
---
 cmd/avtool/conv.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cmd/avtool/conv.go b/cmd/avtool/conv.go
index 38697d6..4cb5261 100644
--- a/cmd/avtool/conv.go
+++ b/cmd/avtool/conv.go
@@ -7,6 +7,7 @@ import (
 	"github.com/nareix/joy5/av"
 	"github.com/nareix/joy5/av/pktop"
 	"github.com/nareix/joy5/format"
+	"github.com/nareix/joy5/format/flv"
 )
 
 var optDontPrintPkt = false
@@ -52,8 +53,17 @@ func doConv(src, dst string) (err error) {
 	for {
 		var pkt av.Packet
 		if pkt, err = fr.ReadPacket(); err != nil {
-			if err == io.EOF {
-				err = nil
+			if err != io.EOF {
+				return
+			}
+			err = nil
+			if dst != "" && fw == nil { // no packets make an empty destination, not none
+				if fw, err = foW.Create(dst, nil); err != nil {
+					return
+				}
+				if m, ok := fw.PacketWriter.(*flv.Muxer); ok {
+					err = m.WriteFileHeader()
+				}
 			}
 			return
 		}
-- 
2.43.0


From 830319b8d67145dfb8144c84e769507a46a2860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:24 +0000
Subject: [PATCH 82/82] fix: rtsp: a connection that ends before an answer is
 not an orderly end

---
 format/rtsp/client.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index eaacadf..70537e7 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -61,6 +61,7 @@ type Client struct {
 	requestUri string
 	cseq       uint
 	playCseq   string
+	playing    bool // PLAY was answered, or media came
 	streams    []*Stream
 	session    string
 	body       io.Reader
@@ -534,6 +535,7 @@ func (self *Client) poll(timeout time.Duration) (res Response, err error) {
 func (self *Client) ReadResponse() (res Response, err error) {
 	for {
 		if res, err = self.poll(self.RtspTimeout); err != nil {
+			err = cutShort(err) // an answer is due
 			return
 		}
 		if res.StatusCode > 0 {
@@ -1227,11 +1229,18 @@ func (self *Client) readPacket() (pkt av.Packet, err error) {
 		var res Response
 		for {
 			if res, err = self.poll(timeout); err != nil {
+				if !self.playing {
+					err = cutShort(err)
+				}
 				return
 			}
 			if len(res.Block) > 0 {
+				self.playing = true
 				break
 			}
+			if res.StatusCode/100 == 2 {
+				self.playing = true
+			}
 			if res.StatusCode > 0 && res.StatusCode/100 != 2 && self.playCseq != "" && res.Headers.Get("CSeq") == self.playCseq {
 				err = fmt.Errorf("rtsp: Play failed, StatusCode=%d", res.StatusCode)
 				return
-- 
2.43.0

