From 93499164aca60a016a3fcee3525583c8d41f4096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 01/32] fix: tolerate a missing DXCC or Supercheck database

A nil *dxcc.Prefixes or *scp.Database stored in an interface is not nil, so the
finders were used although they could not be loaded.
---
 rx/text_processor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rx/text_processor.go b/rx/text_processor.go
index 822106c..5b38025 100644
--- a/rx/text_processor.go
+++ b/rx/text_processor.go
@@ -91,7 +91,7 @@ func NewTextProcessor(out io.Writer, clock Clock, reporter CallsignReporter) *Te
 	return result
 }
 
-func setupDXCCFinder() *dxcc.Prefixes {
+func setupDXCCFinder() dxccFinder {
 	localFilename, err := dxcc.LocalFilename()
 	if err != nil {
 		log.Print(err)
@@ -113,7 +113,7 @@ func setupDXCCFinder() *dxcc.Prefixes {
 	return result
 }
 
-func setupSCPFinder() *scp.Database {
+func setupSCPFinder() scpFinder {
 	localFilename, err := scp.LocalFilename()
 	if err != nil {
 		log.Print(err)
-- 
2.43.0


From cb64ed2e43f05fc718bee0d7890f001f6ed2f4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:59 +0000
Subject: [PATCH 02/32] fix: removing a slow scope stream must not disturb the
 other streams

The streams were removed while ranging over the slice, which skipped, repeated
or ran past the end of the remaining streams.
---
 scope/server_grpc.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scope/server_grpc.go b/scope/server_grpc.go
index e6ee85e..5271e3b 100644
--- a/scope/server_grpc.go
+++ b/scope/server_grpc.go
@@ -75,7 +75,8 @@ func (s *grpcServer) removeStream(i int) {
 }
 
 func (s *grpcServer) sendFrameToStreams(frame *pb.Frame) {
-	for i, out := range s.out {
+	for i := len(s.out) - 1; i >= 0; i-- {
+		out := s.out[i]
 		select {
 		case out <- frame:
 		default:
-- 
2.43.0


From 90183b5501fe9ff9cd2cd3505624cc60f524f5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 03/32] fix: Peak.ContainsBin compares with the bounds the
 wrong way round

---
 dsp/fft.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/fft.go b/dsp/fft.go
index 2ee36ec..377e0f6 100644
--- a/dsp/fft.go
+++ b/dsp/fft.go
@@ -209,7 +209,7 @@ func (p Peak[T, F]) WidthHz() F {
 
 // ContainsBin indicates if the given bin is within this peak.
 func (p Peak[T, F]) ContainsBin(bin int) bool {
-	return p.From >= bin && p.To <= bin
+	return p.From <= bin && bin <= p.To
 }
 
 func FindNoiseFloor[T Number](psd Block[T], edgeWidth int) (T, float64) {
-- 
2.43.0


From 12bb2d68658b0b9f3fa5db2497f2641ff0c68360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:02 +0000
Subject: [PATCH 04/32] fix: map a frequency to the nearest bin

Bins extend half a bin to both sides of their center, truncating assigned the
center frequency of many bins to the bin below.
---
 dsp/fft.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/fft.go b/dsp/fft.go
index 377e0f6..190739f 100644
--- a/dsp/fft.go
+++ b/dsp/fft.go
@@ -130,7 +130,7 @@ func (m *FrequencyMapping[F]) BinToFrequency(bin int, location BinLocation) F {
 }
 
 func (m *FrequencyMapping[F]) FrequencyToBin(frequency F) int {
-	bin := int((float64(frequency) - float64(m.fromFrequency)) / m.binSize)
+	bin := int(math.Round((float64(frequency) - float64(m.fromFrequency)) / m.binSize))
 	return max(0, min(bin, m.blockSize-1))
 }
 
-- 
2.43.0


From 4bd760cc8d7ad12c0f277581772ef0ebf27db33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:03 +0000
Subject: [PATCH 05/32] fix: reject KiwiSDR IQ messages that are too short for
 their header

---
 kiwi/client.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/kiwi/client.go b/kiwi/client.go
index 4bb27cb..98740b3 100644
--- a/kiwi/client.go
+++ b/kiwi/client.go
@@ -281,6 +281,9 @@ func (c *Client) decodeConfigurationMessage(payload []byte) error {
 	return nil
 }
 
+// iqHeaderSize is the size of the header of an IQ message in bytes.
+const iqHeaderSize = 17
+
 func decodeIQMessage(iqData []float32, payload []byte) ([]float32, error) {
 	// decode header information
 	// flags := payload[0]
@@ -289,7 +292,11 @@ func decodeIQMessage(iqData []float32, payload []byte) ([]float32, error) {
 	// rssi := 0.1*float32(smeter) - 127
 	// 10 more bytes of GPS information are ignored
 
-	iqBytes := payload[17:]
+	if len(payload) < iqHeaderSize {
+		return nil, fmt.Errorf("IQ message too short: %d bytes", len(payload))
+	}
+
+	iqBytes := payload[iqHeaderSize:]
 	iqData = decodeIQBytes(iqData, iqBytes)
 
 	return iqData, nil
-- 
2.43.0


From a07662ebf4d9cfdd19451da30994a468eb957442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 06/32] fix: do not overwrite KiwiSDR IQ data that is still
 queued for processing

The receiver queues the slices it gets, so each message needs its own buffer.
---
 kiwi/client.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kiwi/client.go b/kiwi/client.go
index 98740b3..a75c86c 100644
--- a/kiwi/client.go
+++ b/kiwi/client.go
@@ -81,7 +81,6 @@ type Client struct {
 	connected     bool
 	keepalive     bool
 
-	iqBuffer    []float32
 	kiwiHandler KiwiHandler
 
 	out    chan string
@@ -187,6 +186,7 @@ func (c *Client) readLoop(conn clientConn) {
 				continue
 			}
 
+			var iqData []float32
 			switch tag {
 			case msgTag:
 				err = c.decodeConfigurationMessage(payload)
@@ -200,10 +200,10 @@ func (c *Client) readLoop(conn clientConn) {
 				} else if c.audioRate == 0 {
 					err = fmt.Errorf("received IQ data with unknown audio rate")
 				} else {
-					c.iqBuffer, err = decodeIQMessage(c.iqBuffer, payload)
+					iqData, err = decodeIQMessage(nil, payload)
 				}
 				if err == nil {
-					c.kiwiHandler.IQData(c.audioRate, c.iqBuffer)
+					c.kiwiHandler.IQData(c.audioRate, iqData)
 				}
 			default:
 				log.Printf("received message with unknown tag: %s %d bytes", tag, len(payload))
-- 
2.43.0


From a317dc0db4dd86b7a7a25f90d7798d7f433dcdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:06 +0000
Subject: [PATCH 07/32] fix: ignore KiwiSDR IQ data of an unexpected length
 instead of panicking

---
 kiwi/kiwi.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kiwi/kiwi.go b/kiwi/kiwi.go
index 2df24c2..5aa0b13 100644
--- a/kiwi/kiwi.go
+++ b/kiwi/kiwi.go
@@ -94,7 +94,8 @@ func (p *Process) Connected(sampleRate int) {
 func (p *Process) IQData(sampleRate int, data []float32) {
 	const partSize = blockSize * 2
 	if len(data)%partSize != 0 {
-		panic(fmt.Errorf("data must be transferred in blocks of %d samples instead of %d", partSize, len(data)))
+		log.Printf("IQ data must be transferred in blocks of %d samples instead of %d", partSize, len(data))
+		return
 	}
 	count := len(data) / partSize
 	for i := 0; i < count; i++ {
-- 
2.43.0


From e23382226d650acbe4b9e210d57d66a47ac470d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:08 +0000
Subject: [PATCH 08/32] fix: find the noise floor in all windows and with any
 edge width

The last window was never evaluated, the variance was calculated from the first
window to one past the selected window, and an edge width that is negative or
covers the whole block lead to a panic.
---
 dsp/fft.go | 48 +++++++++++++++++++-----------------------------
 1 file changed, 19 insertions(+), 29 deletions(-)

diff --git a/dsp/fft.go b/dsp/fft.go
index 190739f..8ec2ae0 100644
--- a/dsp/fft.go
+++ b/dsp/fft.go
@@ -213,42 +213,32 @@ func (p Peak[T, F]) ContainsBin(bin int) bool {
 }
 
 func FindNoiseFloor[T Number](psd Block[T], edgeWidth int) (T, float64) {
-	windowSize := (len(psd) - 2*edgeWidth) / 10
-	minValue := float64(psd[0])
-	var sum float64
-	count := 0
-	first := true
-	from := 0
-	var resultMean float64
-	resultFrom := 0
-	resultTo := 0
-	for i := edgeWidth; i < len(psd)-edgeWidth; i++ {
-		if count == 0 {
-			from = i
+	edgeWidth = max(0, min(edgeWidth, (len(psd)-1)/2))
+	windowSize := max(1, (len(psd)-2*edgeWidth)/10)
+	var minMean float64
+	minFrom := -1
+	for from := edgeWidth; from+windowSize <= len(psd)-edgeWidth; from += windowSize {
+		var sum float64
+		for i := from; i < from+windowSize; i++ {
+			sum += float64(psd[i])
 		}
-		if count == windowSize {
-			count = 0
-			mean := sum / float64(windowSize)
-			if mean < minValue || first {
-				minValue = mean
-				first = false
-				resultMean = mean
-				resultFrom = from
-				resultTo = i
-			}
-			sum = 0
+		mean := sum / float64(windowSize)
+		if minFrom == -1 || mean < minMean {
+			minMean = mean
+			minFrom = from
 		}
-		sum += float64(psd[i])
-		count++
+	}
+	if minFrom == -1 {
+		return 0, 0
 	}
 
-	sum = 0
-	for i := resultFrom; i <= resultTo; i++ {
-		sum += math.Pow(float64(psd[i])-resultMean, 2)
+	var sum float64
+	for i := minFrom; i < minFrom+windowSize; i++ {
+		sum += math.Pow(float64(psd[i])-minMean, 2)
 	}
 	variance := sum / float64(windowSize)
 
-	return T(minValue), variance
+	return T(minMean), variance
 }
 
 func FindPeaks[T, F Number](peaks []Peak[T, F], spectrum Block[T], cumulationSize int, threshold T, frequencyMapping *FrequencyMapping[F]) []Peak[T, F] {
-- 
2.43.0


From 10381921914b30597b9f682b91e62bd68d1a1681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:09 +0000
Subject: [PATCH 09/32] fix: reset the search point of the text window

---
 rx/text_processor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rx/text_processor.go b/rx/text_processor.go
index 5b38025..293a912 100644
--- a/rx/text_processor.go
+++ b/rx/text_processor.go
@@ -365,6 +365,7 @@ func (w *textWindow) Reset() {
 		w.window[i] = w.window[i][:0]
 		w.currentWindow = 0
 	}
+	w.searchPoint = 0
 }
 
 func (w *textWindow) Write(bytes []byte) (n int, err error) {
-- 
2.43.0


From 29f9602f8a8c1861016deeed5f2f74723e29fcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 10/32] fix: clear the complete state of the CW decoder

---
 cw/decode.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cw/decode.go b/cw/decode.go
index ed9c763..273da9c 100644
--- a/cw/decode.go
+++ b/cw/decode.go
@@ -172,6 +172,8 @@ func (d *Decoder) Reset() {
 func (d *Decoder) Clear() {
 	d.decoding = false
 	d.currentChar.clear()
+	d.currentCharInvalid = false
+	d.lastState = false
 	d.ticks = 0
 	d.onStart = 0
 	d.offStart = 0
-- 
2.43.0


From 06473f76a054643802903f182d6bbcbc0f169f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:13 +0000
Subject: [PATCH 11/32] fix: an overlong tone must not invalidate the following
 character

---
 cw/decode.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cw/decode.go b/cw/decode.go
index 273da9c..bcfb81b 100644
--- a/cw/decode.go
+++ b/cw/decode.go
@@ -317,6 +317,7 @@ func (d *Decoder) appendSymbol(s cw.Symbol) {
 func (d *Decoder) decodeCurrentChar() {
 	if d.currentChar.empty() {
 		// fmt.Print("X") // TODO REMOVE THIS
+		d.currentCharInvalid = false
 		return
 	}
 	if d.currentCharInvalid {
-- 
2.43.0


From 861f8b0f4af3df7fe807e6d0a45b99b499eea6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:14 +0000
Subject: [PATCH 12/32] fix: support IPv6 addresses as TCP address argument

---
 cli/cli.go     | 3 +--
 kiwi/client.go | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/cli/cli.go b/cli/cli.go
index 6813cf2..8694042 100644
--- a/cli/cli.go
+++ b/cli/cli.go
@@ -1,7 +1,6 @@
 package cli
 
 import (
-	"fmt"
 	"net"
 	"strconv"
 	"strings"
@@ -18,7 +17,7 @@ func ParseTCPAddrArg(arg string, defaultHost string, defaultPort int) (*net.TCPA
 		port = strconv.Itoa(defaultPort)
 	}
 
-	return net.ResolveTCPAddr("tcp", fmt.Sprintf("%s:%s", host, port))
+	return net.ResolveTCPAddr("tcp", net.JoinHostPort(host, port))
 }
 
 func splitHostPort(hostport string) (host, port string) {
diff --git a/kiwi/client.go b/kiwi/client.go
index a75c86c..cb7596f 100644
--- a/kiwi/client.go
+++ b/kiwi/client.go
@@ -149,7 +149,7 @@ func newClient(host string, keepalive bool, kiwiHandler KiwiHandler) (*Client, e
 }
 
 func (c *Client) connect() (clientConn, error) {
-	hostUrl, err := url.Parse(fmt.Sprintf("ws://%s:%d/%d/SND", c.host.IP.String(), c.host.Port, nextClientNumber()))
+	hostUrl, err := url.Parse(fmt.Sprintf("ws://%s/%d/SND", c.host, nextClientNumber()))
 	if err != nil {
 		return nil, fmt.Errorf("cannot build KiwiSDR URL: %v", err)
 	}
-- 
2.43.0


From a75e67247574b513008b68ad5dac30bb7c907c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:16 +0000
Subject: [PATCH 13/32] fix: apply the signal debounce setting to new listeners

---
 rx/receiver.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rx/receiver.go b/rx/receiver.go
index 71516e4..ca0bd80 100644
--- a/rx/receiver.go
+++ b/rx/receiver.go
@@ -24,6 +24,7 @@ const (
 	defaultPeakThreshold    = 15
 	defaultEdgeWidth        = 70
 	defaultListenerPoolSize = 30
+	defaultSignalDebounce   = 1
 )
 
 type Clock interface {
@@ -73,6 +74,7 @@ type Receiver[T, F dsp.Number] struct {
 	blockSize       int
 	centerFrequency F
 	vfoOffset       F
+	signalDebounce  int
 
 	in               chan []T
 	op               chan func()
@@ -101,6 +103,7 @@ func NewReceiver[T, F dsp.Number](id string, mode ReceiverMode, clock Clock) *Re
 
 		peakThreshold:     defaultPeakThreshold,
 		edgeWidth:         defaultEdgeWidth,
+		signalDebounce:    defaultSignalDebounce,
 		silenceTimeout:    defaultSilenceTimeout,
 		attachmentTimeout: defaultAttachmentTimeout,
 
@@ -123,6 +126,7 @@ func (r *Receiver[T, F]) newListener(id string) *Listener[T, F] {
 	result := NewListener[T, F](id, r.out.Channel(id), r.clock, r, r.sampleRate, r.blockSize)
 	result.SetAttachmentTimeout(r.attachmentTimeout)
 	result.SetSilenceTimeout(r.silenceTimeout)
+	result.SetSignalDebounce(r.signalDebounce)
 	result.SetScope(r.scope)
 	return result
 }
@@ -246,6 +250,7 @@ func (r *Receiver[T, F]) SetAttachmentTimeout(timeout time.Duration) {
 
 func (r *Receiver[T, F]) SetSignalDebounce(debounce int) {
 	r.do(func() {
+		r.signalDebounce = debounce
 		r.listeners.ForEach(func(l *Listener[T, F]) {
 			l.SetSignalDebounce(debounce)
 		})
-- 
2.43.0


From 91c8d7bee0a4d23e7f3b9b68c865ff5506b229d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:17 +0000
Subject: [PATCH 14/32] fix: keep the peak until the text processor is stopped

The text processor may still report callsigns on the frequency of the peak.
---
 rx/listener.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/listener.go b/rx/listener.go
index 8c1ef9d..47762ae 100644
--- a/rx/listener.go
+++ b/rx/listener.go
@@ -98,9 +98,9 @@ func (l *Listener[T, F]) Attached() bool {
 
 func (l *Listener[T, F]) Detach() {
 	frequency := l.peak.SignalFrequency
-	l.peak = nil
 
 	l.textProcessor.Stop()
+	l.peak = nil
 	l.reporter.ListenerDeactivated(l.id, frequency)
 	// log.Printf("\ndemodulation stopped\n")
 }
-- 
2.43.0


From 491a9a09266446302c9a3a13e3573943213d99dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 15/32] fix: the rolling mean and variance depend on the values
 in the window only

A value that is not finite (the level of a block of silence is -Inf dB) turned the
running sums into NaN for good. The running sum of the variance was calculated
with different means.
---
 dsp/dsp.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/dsp/dsp.go b/dsp/dsp.go
index 56015cb..8d809cb 100644
--- a/dsp/dsp.go
+++ b/dsp/dsp.go
@@ -203,16 +203,17 @@ func NewRollingVariance[T Number](n int) *RollingVariance[T] {
 
 // Put a new value into the rolling window and get the new variance back.
 func (v *RollingVariance[T]) Put(value T) T {
-	v.sumForMean -= v.values[v.next]
-	oldSummand := (v.values[v.next] - v.mean)
-	v.sumForVariance -= oldSummand * oldSummand
-
 	v.values[v.next] = value
 
-	v.sumForMean += v.values[v.next]
+	v.sumForMean = 0
+	for _, x := range v.values {
+		v.sumForMean += x
+	}
 	v.mean = v.sumForMean / v.n
-	newSummand := (v.values[v.next] - v.mean)
-	v.sumForVariance += newSummand * newSummand
+	v.sumForVariance = 0
+	for _, x := range v.values {
+		v.sumForVariance += (x - v.mean) * (x - v.mean)
+	}
 	v.variance = v.sumForVariance / v.n
 
 	v.next = (v.next + 1) % len(v.values)
@@ -255,11 +256,12 @@ func NewRollingMean[T Number](n int) *RollingMean[T] {
 
 // Put a new value into the rolling window and get the new mean back.
 func (v *RollingMean[T]) Put(value T) T {
-	v.sumForMean -= v.values[v.next]
-
 	v.values[v.next] = value
 
-	v.sumForMean += v.values[v.next]
+	v.sumForMean = 0
+	for _, x := range v.values {
+		v.sumForMean += x
+	}
 	v.mean = v.sumForMean / v.n
 
 	v.next = (v.next + 1) % len(v.values)
-- 
2.43.0


From 407951121db4b3dc2decd52860b0ba2bf961e891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:21 +0000
Subject: [PATCH 16/32] fix: do not block when asking a stopped receiver for
 its center frequency

---
 rx/receiver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/receiver.go b/rx/receiver.go
index ca0bd80..77eeff4 100644
--- a/rx/receiver.go
+++ b/rx/receiver.go
@@ -267,7 +267,7 @@ func (r *Receiver[T, F]) SetCenterFrequency(frequency F) {
 }
 
 func (r *Receiver[T, F]) CenterFrequency() F {
-	result := make(chan F)
+	result := make(chan F, 1)
 	r.do(func() {
 		result <- r.centerFrequency
 	})
-- 
2.43.0


From b49d34f5f017436e94aa0d89997b3b70835c51bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:23 +0000
Subject: [PATCH 17/32] fix: ignore unknown peaks when activating or
 deactivating them

---
 rx/peaks.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rx/peaks.go b/rx/peaks.go
index b468200..e77747d 100644
--- a/rx/peaks.go
+++ b/rx/peaks.go
@@ -152,6 +152,9 @@ func (t *PeaksTable[T, F]) Reset() {
 
 func (t *PeaksTable[T, F]) Activate(p *dsp.Peak[T, F]) {
 	internalPeak := t.getInternal(p)
+	if internalPeak == nil {
+		return
+	}
 	if internalPeak.state != peakNew && internalPeak.state != peakInactive {
 		return
 	}
@@ -160,6 +163,9 @@ func (t *PeaksTable[T, F]) Activate(p *dsp.Peak[T, F]) {
 }
 
 func (t *PeaksTable[T, F]) getInternal(p *dsp.Peak[T, F]) *peak[T, F] {
+	if p.From < 0 || p.From >= len(t.bins) {
+		return nil
+	}
 	internalPeak := t.bins[p.From]
 	if internalPeak == nil {
 		return nil
@@ -173,6 +179,9 @@ func (t *PeaksTable[T, F]) getInternal(p *dsp.Peak[T, F]) *peak[T, F] {
 
 func (t *PeaksTable[T, F]) Deactivate(p *dsp.Peak[T, F]) {
 	internalPeak := t.getInternal(p)
+	if internalPeak == nil {
+		return
+	}
 	if internalPeak.state != peakActive {
 		return
 	}
-- 
2.43.0


From a07e93c91612df20d77e6dabb6e717dd6fb5a7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:24 +0000
Subject: [PATCH 18/32] fix: find the maximum within the given section of a
 block only

---
 dsp/fft.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsp/fft.go b/dsp/fft.go
index 8ec2ae0..758ae4d 100644
--- a/dsp/fft.go
+++ b/dsp/fft.go
@@ -163,8 +163,8 @@ func (b Block[T]) Mean(from, to int) T {
 
 // Max imum value in the given section of this block.
 func (b Block[T]) Max(from, to int) (T, int) {
-	maxValue := b[0]
-	maxI := 0
+	maxValue := b[from]
+	maxI := from
 	for i := from; i <= to; i++ {
 		if maxValue < b[i] {
 			maxValue = b[i]
-- 
2.43.0


From fa18df1c9ced9d4b553400b17fc2192f13cfa79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:25 +0000
Subject: [PATCH 19/32] fix: the audio block size must not be zero

With a low pitch a filter block covers at least one period of the pitch.
---
 dsp/dsp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/dsp.go b/dsp/dsp.go
index 8d809cb..e3da007 100644
--- a/dsp/dsp.go
+++ b/dsp/dsp.go
@@ -71,7 +71,7 @@ func NewGoertzel(pitch float64, sampleRate int, blocksizeRatio float64) *Goertze
 
 func calculateBlocksize(pitch float64, sampleRate int, blocksizeRatio float64) int {
 	minBlocksize := math.Round(float64(sampleRate) / pitch)
-	return int(math.Round((blocksizeRatio*float64(sampleRate))/minBlocksize)) * int(minBlocksize)
+	return max(1, int(math.Round((blocksizeRatio*float64(sampleRate))/minBlocksize))) * int(minBlocksize)
 }
 
 // SetMagnitudeThreshold sets the magnitude threshold.
-- 
2.43.0


From a4d68a57bf1a503560d21408e9d20643db08dfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:27 +0000
Subject: [PATCH 20/32] fix: write all bytes to a telnet connection

A short write of more than half of the bytes dropped the remaining bytes.
---
 telnet/telnet.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index 4b11e48..7a1122c 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -299,17 +299,13 @@ func (c *Connection) readLoop() {
 }
 
 func (c *Connection) writeAll(bytes []byte) error {
-	n := 0
 	buffer := bytes
-	for n < len(buffer) {
-		var err error
-		n, err = c.conn.Write(buffer)
+	for len(buffer) > 0 {
+		n, err := c.conn.Write(buffer)
 		if err != nil {
 			return err
 		}
-		if n < len(buffer) {
-			buffer = buffer[n:]
-		}
+		buffer = buffer[n:]
 	}
 	return nil
 }
-- 
2.43.0


From 6b15b4e14212709b035ee6582683fbf1859afeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 21/32] fix: keep the peak center correction within the bin

The absolute values of levels in dB are not comparable, and next to a silent bin or
on a flat section the correction moved the signal frequency to an arbitrary value.
---
 dsp/fft.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsp/fft.go b/dsp/fft.go
index 758ae4d..ad264b1 100644
--- a/dsp/fft.go
+++ b/dsp/fft.go
@@ -286,7 +286,7 @@ func PeakCenterCorrection[T, F Number](bin int, spectrum Block[T]) BinLocation {
 	}
 
 	value := func(i int) float64 {
-		return math.Abs(float64(spectrum[i]))
+		return float64(spectrum[i])
 	}
 
 	// quadratic interpolation
@@ -294,6 +294,9 @@ func PeakCenterCorrection[T, F Number](bin int, spectrum Block[T]) BinLocation {
 	y2 := value(bin)
 	y3 := value(bin + 1)
 	result := (y3 - y1) / (2 * (2*y2 - y1 - y3))
+	if !(math.Abs(result) <= float64(BinTo)) { // this is not a local maximum, or there are values that are not finite
+		return 0
+	}
 
 	return BinLocation(result)
 }
-- 
2.43.0


From 8bde8b724f9647f40ac7d3c418ee29fe64b8d213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:34 +0000
Subject: [PATCH 22/32] fix: replace peaks that reach below the first bin

---
 rx/peaks.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rx/peaks.go b/rx/peaks.go
index e77747d..e7f1a11 100644
--- a/rx/peaks.go
+++ b/rx/peaks.go
@@ -53,7 +53,7 @@ func (t *PeaksTable[T, F]) ForcePut(p *dsp.Peak[T, F]) {
 			continue
 		}
 		if clearFrom == -1 {
-			clearFrom = existingPeak.From
+			clearFrom = max(0, existingPeak.From)
 		}
 		clearTo = existingPeak.To
 	}
@@ -83,7 +83,7 @@ func (t *PeaksTable[T, F]) Put(p *dsp.Peak[T, F]) {
 			return
 		}
 		if clearFrom == -1 {
-			clearFrom = existingPeak.From
+			clearFrom = max(0, existingPeak.From)
 		}
 		clearTo = existingPeak.To
 	}
-- 
2.43.0


From 9d630382520058cb96337b85cc61df35cdc04bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:38 +0000
Subject: [PATCH 23/32] fix: identify a peak by its whole range

---
 rx/peaks.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rx/peaks.go b/rx/peaks.go
index e7f1a11..f5e21b3 100644
--- a/rx/peaks.go
+++ b/rx/peaks.go
@@ -163,14 +163,15 @@ func (t *PeaksTable[T, F]) Activate(p *dsp.Peak[T, F]) {
 }
 
 func (t *PeaksTable[T, F]) getInternal(p *dsp.Peak[T, F]) *peak[T, F] {
-	if p.From < 0 || p.From >= len(t.bins) {
+	from := max(0, p.From)
+	if from >= len(t.bins) {
 		return nil
 	}
-	internalPeak := t.bins[p.From]
+	internalPeak := t.bins[from]
 	if internalPeak == nil {
 		return nil
 	}
-	if internalPeak.To != p.To {
+	if internalPeak.From != p.From || internalPeak.To != p.To {
 		return nil
 	}
 
-- 
2.43.0


From 860c32672d262205b29b97771dab1b01e4500a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 24/32] fix: wait until an operation on the audio demodulator
 is executed

---
 cw/audio.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cw/audio.go b/cw/audio.go
index a75cfa8..11f29a6 100644
--- a/cw/audio.go
+++ b/cw/audio.go
@@ -158,11 +158,17 @@ func (d *AudioDemodulator) Write(buf []float32) (int, error) {
 }
 
 func (d *AudioDemodulator) do(f func()) {
+	executed := make(chan struct{})
+	op := func() {
+		f()
+		close(executed)
+	}
+
 	select {
 	case <-d.closed:
 		return
-	default:
-		d.op <- f
+	case d.op <- op:
+		<-executed
 	}
 }
 
-- 
2.43.0


From 184d6aef35db6da3be7506b1cd6c3a173b76dbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 25/32] fix: text that is still to be processed must not get
 into the text of the next attachment

---
 rx/text_processor.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/rx/text_processor.go b/rx/text_processor.go
index 293a912..09806b8 100644
--- a/rx/text_processor.go
+++ b/rx/text_processor.go
@@ -178,8 +178,20 @@ func (p *TextProcessor) sync() {
 	<-executed
 }
 
+// dropOperations drops the operations that were left over when the text processor was stopped.
+func (p *TextProcessor) dropOperations() {
+	for {
+		select {
+		case <-p.op:
+		default:
+			return
+		}
+	}
+}
+
 func (p *TextProcessor) Restart() {
 	p.Stop()
+	p.dropOperations()
 	p.lastWrite = p.clock.Now()
 	p.lastBestMatch = callsign.NoCallsign
 	p.window.Reset()
-- 
2.43.0


From bfdf3e0bd89dc92b3040fe2e4df49de5e7eff68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 26/32] fix: release the listeners of a receiver after its last
 data

---
 rx/receiver.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rx/receiver.go b/rx/receiver.go
index 77eeff4..76b1ddc 100644
--- a/rx/receiver.go
+++ b/rx/receiver.go
@@ -154,10 +154,9 @@ func (r *Receiver[T, F]) Stop() {
 		return
 	}
 
-	r.listeners.Reset()
-
 	close(r.stop)
 	<-r.stopped
+	r.listeners.Reset()
 	close(r.in)
 	close(r.op)
 
-- 
2.43.0


From 22b90b09718ce14a83dbe0533fcb72dad6ac68d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 27/32] fix: keep the bytes of a multi-byte character in the
 answer of a telnet client

---
 telnet/telnet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index 7a1122c..7f4b0b7 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -325,7 +325,7 @@ func (c *Connection) parseAnswerByte(answerByte byte) (string, *Prompt) {
 		c.currentAnswer = ""
 		return response, nextPrompt
 	default:
-		c.currentAnswer += string(answerByte)
+		c.currentAnswer += string([]byte{answerByte})
 		return "", nil
 	}
 }
-- 
2.43.0


From 65f500068d9a7b93a33f22026ff8876f32d3ed37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:30 +0000
Subject: [PATCH 28/32] fix: do not wait for a telnet connection that was
 closed in the meantime

---
 telnet/telnet.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index 7f4b0b7..da1faea 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -345,7 +345,11 @@ func (c *Connection) Write(bytes []byte) (int, error) {
 	case <-c.closed:
 		return 0, net.ErrClosed
 	default:
-		c.msg <- bytes
+	}
+	select {
+	case <-c.closed:
+		return 0, net.ErrClosed
+	case c.msg <- bytes:
 		return len(bytes), nil
 	}
 }
-- 
2.43.0


From ea6e1d5c0e704927c0d104102367c9b2211a1cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:47 +0000
Subject: [PATCH 29/32] fix: execute the waiting operations of the TCI process
 when it is closed, so that the marks of its listeners are removed

---
 tci/tci.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tci/tci.go b/tci/tci.go
index a624187..729ff78 100644
--- a/tci/tci.go
+++ b/tci/tci.go
@@ -93,12 +93,25 @@ func (p *Process) run() {
 		case <-p.close:
 			p.client.StopIQ(p.trx)
 			p.receiver.Stop()
+			p.runPending()
 			close(p.closed)
 			return
 		}
 	}
 }
 
+// runPending executes all operations that are still waiting.
+func (p *Process) runPending() {
+	for {
+		select {
+		case op := <-p.opAsync:
+			op()
+		default:
+			return
+		}
+	}
+}
+
 func (p *Process) doAsync(f func()) {
 	select {
 	case <-p.closed:
-- 
2.43.0


From f08edd42f3712767f5104954817673bbd12e8ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:12 +0000
Subject: [PATCH 30/32] fix: an invalid audio rate of a KiwiSDR does not
 replace the valid one

---
 kiwi/client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kiwi/client.go b/kiwi/client.go
index cb7596f..cdf6b42 100644
--- a/kiwi/client.go
+++ b/kiwi/client.go
@@ -266,7 +266,11 @@ func (c *Client) decodeConfigurationMessage(payload []byte) error {
 		var err error
 		switch {
 		case key == "audio_rate":
-			c.audioRate, err = strconv.Atoi(value)
+			var audioRate int
+			audioRate, err = strconv.Atoi(value)
+			if err == nil {
+				c.audioRate = audioRate
+			}
 		case key == "compression":
 			c.compression = (value == "1")
 		case strings.HasPrefix(key, "load_"):
-- 
2.43.0


From c224734bb99cb0e1210f6854b3d8afbcf2348b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:14 +0000
Subject: [PATCH 31/32] fix: sending a frame or opening a stream neither fails
 nor waits forever when the scope server is shut down

---
 scope/server_grpc.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/scope/server_grpc.go b/scope/server_grpc.go
index 5271e3b..9f1cbcd 100644
--- a/scope/server_grpc.go
+++ b/scope/server_grpc.go
@@ -42,9 +42,6 @@ func newGRPCServer(address string, outBufferSize int) (*grpcServer, error) {
 }
 
 func (s *grpcServer) run() {
-	defer close(s.in)
-	defer close(s.register)
-
 	for {
 		select {
 		case <-s.shutdown:
@@ -88,7 +85,11 @@ func (s *grpcServer) sendFrameToStreams(frame *pb.Frame) {
 
 func (s *grpcServer) getFrameStream() chan *pb.Frame {
 	result := make(chan *pb.Frame, s.outBufferSize)
-	s.register <- result
+	select {
+	case s.register <- result:
+	case <-s.shutdown:
+		close(result)
+	}
 	return result
 }
 
@@ -101,6 +102,8 @@ func (s *grpcServer) Start() error {
 
 	listener, err := net.Listen("tcp", s.address.String())
 	if err != nil {
+		s.server = nil
+		close(s.shutdown)
 		return fmt.Errorf("cannot listen on address %s: %w", s.address, err)
 	}
 	s.activeAddress = listener.Addr()
@@ -145,5 +148,8 @@ func (s *grpcServer) SendFrame(frame *pb.Frame) {
 	if s.server == nil {
 		return
 	}
-	s.in <- frame
+	select {
+	case s.in <- frame:
+	case <-s.shutdown:
+	}
 }
-- 
2.43.0


From baeaf1a13ad86e1284603174bde83f9b00a99b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:18 +0000
Subject: [PATCH 32/32] fix: a frame that is shown while the scope server stops
 does not crash

---
 scope/server.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/scope/server.go b/scope/server.go
index b65c4c7..1727c34 100644
--- a/scope/server.go
+++ b/scope/server.go
@@ -29,9 +29,14 @@ func NewScopeServer(address string) *ScopeServer {
 }
 
 func (s *ScopeServer) Active() bool {
+	return s.activeServer() != nil
+}
+
+// activeServer returns the current server, nil if the scope is not active.
+func (s *ScopeServer) activeServer() *grpcServer {
 	s.serverLock.Lock()
 	defer s.serverLock.Unlock()
-	return s.server != nil
+	return s.server
 }
 
 func (s *ScopeServer) Addr() net.Addr {
@@ -62,7 +67,7 @@ func (s *ScopeServer) Start() error {
 		s.server = server
 		s.serverLock.Unlock()
 
-		err := s.server.Start()
+		err := server.Start()
 		if err != nil {
 			log.Printf("Scope server failed: %v", err)
 		}
@@ -76,15 +81,17 @@ func (s *ScopeServer) Start() error {
 }
 
 func (s *ScopeServer) Stop() {
-	if !s.Active() {
+	server := s.activeServer()
+	if server == nil {
 		return
 	}
 
-	s.server.Stop()
+	server.Stop()
 }
 
 func (s *ScopeServer) ShowTimeFrame(timeFrame *TimeFrame) {
-	if !s.Active() {
+	server := s.activeServer()
+	if server == nil {
 		return
 	}
 
@@ -102,11 +109,12 @@ func (s *ScopeServer) ShowTimeFrame(timeFrame *TimeFrame) {
 			TimeFrame: grpcTimeFrame,
 		},
 	}
-	s.server.SendFrame(frame)
+	server.SendFrame(frame)
 }
 
 func (s *ScopeServer) ShowSpectralFrame(spectralFrame *SpectralFrame) {
-	if !s.Active() {
+	server := s.activeServer()
+	if server == nil {
 		return
 	}
 
@@ -134,5 +142,5 @@ func (s *ScopeServer) ShowSpectralFrame(spectralFrame *SpectralFrame) {
 			SpectralFrame: grpcSpectralFrame,
 		},
 	}
-	s.server.SendFrame(frame)
+	server.SendFrame(frame)
 }
-- 
2.43.0

