From f635211fd34a5bfb9db9f1c529067378f8488cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:04 +0000
Subject: [PATCH 01/45] fix: keep working without the DXCC prefixes and the SCP
 database

A missing database was stored as typed nil in the finder interface, the nil
checks failed and the first callsign candidate crashed the program.
---
 rx/text_processor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rx/text_processor.go b/rx/text_processor.go
index 822106c..5b38025 100644
--- a/rx/text_processor.go
+++ b/rx/text_processor.go
@@ -91,7 +91,7 @@ func NewTextProcessor(out io.Writer, clock Clock, reporter CallsignReporter) *Te
 	return result
 }
 
-func setupDXCCFinder() *dxcc.Prefixes {
+func setupDXCCFinder() dxccFinder {
 	localFilename, err := dxcc.LocalFilename()
 	if err != nil {
 		log.Print(err)
@@ -113,7 +113,7 @@ func setupDXCCFinder() *dxcc.Prefixes {
 	return result
 }
 
-func setupSCPFinder() *scp.Database {
+func setupSCPFinder() scpFinder {
 	localFilename, err := scp.LocalFilename()
 	if err != nil {
 		log.Print(err)
-- 
2.43.0


From e53edaca66f605eb1d0035c1e5f9e9f28dc54e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:27 +0000
Subject: [PATCH 02/45] fix: stop the callsign search before the peak of a
 listener changes

Detach removed the peak while the callsign search of the listener was still
running: a callsign found at that moment dereferenced a nil peak.
---
 rx/listener.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rx/listener.go b/rx/listener.go
index 8c1ef9d..b9c07e4 100644
--- a/rx/listener.go
+++ b/rx/listener.go
@@ -82,6 +82,7 @@ func (l *Listener[T, F]) SpotTimeout(callsign string) {
 }
 
 func (l *Listener[T, F]) Attach(peak *dsp.Peak[T, F]) {
+	l.textProcessor.Stop() // the callsign search must not see the peak change
 	l.peak = peak
 	l.lastAttach = l.clock.Now()
 
@@ -97,10 +98,10 @@ func (l *Listener[T, F]) Attached() bool {
 }
 
 func (l *Listener[T, F]) Detach() {
+	l.textProcessor.Stop() // the callsign search must not see the peak change
 	frequency := l.peak.SignalFrequency
 	l.peak = nil
 
-	l.textProcessor.Stop()
 	l.reporter.ListenerDeactivated(l.id, frequency)
 	// log.Printf("\ndemodulation stopped\n")
 }
-- 
2.43.0


From 709e1384913d98270adf61a1ba445f10291513a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:11 +0000
Subject: [PATCH 03/45] fix: text for a stopped callsign search must not block
 the receiver

Writing to a text processor that was not running filled the queue of
operations and finally blocked forever.
---
 rx/text_processor.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/rx/text_processor.go b/rx/text_processor.go
index 5b38025..e85e4a6 100644
--- a/rx/text_processor.go
+++ b/rx/text_processor.go
@@ -170,6 +170,18 @@ func (p *TextProcessor) run() {
 	}
 }
 
+// do executes the given operation in the goroutine of the text processor. The operation is dropped if
+// the text processor is not running.
+func (p *TextProcessor) do(f func()) {
+	if p.stop == nil {
+		return
+	}
+	select {
+	case p.op <- f:
+	case <-p.stopped:
+	}
+}
+
 func (p *TextProcessor) sync() {
 	executed := make(chan struct{})
 	p.op <- func() {
@@ -194,7 +206,7 @@ func (p *TextProcessor) LastWrite() time.Time {
 func (p *TextProcessor) CheckWriteTimeout() {
 	now := p.clock.Now()
 	if now.Sub(p.lastWrite) > defaultWriteTimeout {
-		p.op <- p.writeTimeout
+		p.do(p.writeTimeout)
 	}
 }
 
@@ -210,9 +222,9 @@ func (p *TextProcessor) Write(bytes []byte) (int, error) {
 
 	bytesForProcessing := make([]byte, len(bytes))
 	copy(bytesForProcessing, bytes)
-	p.op <- func() {
+	p.do(func() {
 		p.findNextCallsign(bytesForProcessing)
-	}
+	})
 
 	if p.out != nil {
 		return p.out.Write(bytes)
-- 
2.43.0


From 8f8e080dfab272a116710bb512582760d593c115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:18 +0000
Subject: [PATCH 04/45] fix: restarting the callsign search drops everything of
 the previous signal

The search point of the text window and the queued operations survived a
restart, so that the first callsign of the new signal was missed or a
callsign of the previous signal was reported for the new one.
---
 rx/text_processor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rx/text_processor.go b/rx/text_processor.go
index e85e4a6..0a59fcf 100644
--- a/rx/text_processor.go
+++ b/rx/text_processor.go
@@ -196,6 +196,7 @@ func (p *TextProcessor) Restart() {
 	p.lastBestMatch = callsign.NoCallsign
 	p.window.Reset()
 	clear(p.collectedCallsigns)
+	p.op = make(chan func(), cap(p.op)) // drop the pending operations of the previous signal
 	p.Start()
 }
 
@@ -377,6 +378,7 @@ func (w *textWindow) Reset() {
 		w.window[i] = w.window[i][:0]
 		w.currentWindow = 0
 	}
+	w.searchPoint = 0
 }
 
 func (w *textWindow) Write(bytes []byte) (n int, err error) {
-- 
2.43.0


From 5d5287268caf1dd2bdfdcca46e241d53b0faebfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:18 +0000
Subject: [PATCH 05/45] fix: the best match does not depend on the map
 iteration order

With several callsigns collected equally often, a random one was spotted.
---
 rx/text_processor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rx/text_processor.go b/rx/text_processor.go
index 0a59fcf..c56f140 100644
--- a/rx/text_processor.go
+++ b/rx/text_processor.go
@@ -319,7 +319,8 @@ func (p *TextProcessor) bestMatch() callsign.Callsign {
 
 	for _, collected := range p.collectedCallsigns {
 		weightedCount := collected.count + collected.weight
-		if maxCount < weightedCount {
+		isTie := bestMatch != callsign.NoCallsign && maxCount == weightedCount
+		if maxCount < weightedCount || (isTie && collected.call.String() < bestMatch.String()) {
 			maxCount = weightedCount
 			bestMatch = collected.call
 		}
-- 
2.43.0


From 5ab3fceed141ed5bbe90bddf63cf40a6a1058707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:25 +0000
Subject: [PATCH 06/45] fix: clearing the decoder also forgets the last state
 and the invalid character

A decoder that was reset while a signal was on saw a falling edge first, and
the invalid mark of the previous signal dropped the first character.
---
 cw/decode.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cw/decode.go b/cw/decode.go
index ed9c763..273da9c 100644
--- a/cw/decode.go
+++ b/cw/decode.go
@@ -172,6 +172,8 @@ func (d *Decoder) Reset() {
 func (d *Decoder) Clear() {
 	d.decoding = false
 	d.currentChar.clear()
+	d.currentCharInvalid = false
+	d.lastState = false
 	d.ticks = 0
 	d.onStart = 0
 	d.offStart = 0
-- 
2.43.0


From e0c4adb11c6aca141a41ee2336db3e2cc167507a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:33 +0000
Subject: [PATCH 07/45] fix: resetting the spectral demodulator also resets the
 debouncer

The debounced state of the previous signal was still effective for the next one.
---
 cw/spectral.go | 1 +
 dsp/dsp.go     | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/cw/spectral.go b/cw/spectral.go
index 086fa0a..865c3f7 100644
--- a/cw/spectral.go
+++ b/cw/spectral.go
@@ -42,6 +42,7 @@ func (d *SpectralDemodulator[M, F]) SetScope(scope scope.Scope) {
 }
 
 func (d *SpectralDemodulator[M, F]) Reset() {
+	d.signalDebouncer.Reset()
 	d.decoder.Reset()
 }
 
diff --git a/dsp/dsp.go b/dsp/dsp.go
index 56015cb..c717ef0 100644
--- a/dsp/dsp.go
+++ b/dsp/dsp.go
@@ -159,6 +159,13 @@ func (d *BoolDebouncer) Threshold() int {
 	return d.threshold
 }
 
+// Reset the debouncer to its initial state. The threshold remains unchanged.
+func (d *BoolDebouncer) Reset() {
+	d.effectiveState = false
+	d.lastRawState = false
+	d.stateCount = 0
+}
+
 // Debounce is periodically called with the raw signal state. It returns the debounced signal state.
 // The signal must be stable for threshold calls of Debounce until a state change is propagated by Debounce.
 func (d *BoolDebouncer) Debounce(rawState bool) bool {
-- 
2.43.0


From b489e1e064b0311637e75254b7951a7da181f554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:41 +0000
Subject: [PATCH 08/45] fix: a non-finite value leaves the rolling mean with
 the window

An all-zero block of samples has a noise floor of -Inf dB. Once put into the
rolling mean, the sum stayed NaN forever and no signal was detected anymore.
---
 dsp/dsp.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dsp/dsp.go b/dsp/dsp.go
index c717ef0..eacd867 100644
--- a/dsp/dsp.go
+++ b/dsp/dsp.go
@@ -262,11 +262,13 @@ func NewRollingMean[T Number](n int) *RollingMean[T] {
 
 // Put a new value into the rolling window and get the new mean back.
 func (v *RollingMean[T]) Put(value T) T {
-	v.sumForMean -= v.values[v.next]
-
 	v.values[v.next] = value
 
-	v.sumForMean += v.values[v.next]
+	// sum up the whole window, an infinite or undefined value must not stay in the sum forever
+	v.sumForMean = 0
+	for _, windowValue := range v.values {
+		v.sumForMean += windowValue
+	}
 	v.mean = v.sumForMean / v.n
 
 	v.next = (v.next + 1) % len(v.values)
-- 
2.43.0


From 5efb0894f3cdacec83f716efa4830438c7188c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:49 +0000
Subject: [PATCH 09/45] fix: activating or deactivating a peak that left the
 table is harmless

In decode mode the peak of the VFO is forced into the table, which may remove
a peak that is still referenced.
---
 rx/peaks.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rx/peaks.go b/rx/peaks.go
index b468200..bff3844 100644
--- a/rx/peaks.go
+++ b/rx/peaks.go
@@ -152,6 +152,9 @@ func (t *PeaksTable[T, F]) Reset() {
 
 func (t *PeaksTable[T, F]) Activate(p *dsp.Peak[T, F]) {
 	internalPeak := t.getInternal(p)
+	if internalPeak == nil {
+		return
+	}
 	if internalPeak.state != peakNew && internalPeak.state != peakInactive {
 		return
 	}
@@ -160,6 +163,10 @@ func (t *PeaksTable[T, F]) Activate(p *dsp.Peak[T, F]) {
 }
 
 func (t *PeaksTable[T, F]) getInternal(p *dsp.Peak[T, F]) *peak[T, F] {
+	if p.From < 0 || p.From >= len(t.bins) {
+		return nil
+	}
+
 	internalPeak := t.bins[p.From]
 	if internalPeak == nil {
 		return nil
@@ -173,6 +180,9 @@ func (t *PeaksTable[T, F]) getInternal(p *dsp.Peak[T, F]) *peak[T, F] {
 
 func (t *PeaksTable[T, F]) Deactivate(p *dsp.Peak[T, F]) {
 	internalPeak := t.getInternal(p)
+	if internalPeak == nil {
+		return
+	}
 	if internalPeak.state != peakActive {
 		return
 	}
-- 
2.43.0


From db60c2c6f7cfb605e5a17607a760caf01898afdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:56 +0000
Subject: [PATCH 10/45] fix: a peak wider than one bin contains its bins

---
 dsp/fft.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/fft.go b/dsp/fft.go
index 2ee36ec..377e0f6 100644
--- a/dsp/fft.go
+++ b/dsp/fft.go
@@ -209,7 +209,7 @@ func (p Peak[T, F]) WidthHz() F {
 
 // ContainsBin indicates if the given bin is within this peak.
 func (p Peak[T, F]) ContainsBin(bin int) bool {
-	return p.From >= bin && p.To <= bin
+	return p.From <= bin && bin <= p.To
 }
 
 func FindNoiseFloor[T Number](psd Block[T], edgeWidth int) (T, float64) {
-- 
2.43.0


From 6a42a89f44535fd4ec4fe27faf294e69717dcf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:27 +0000
Subject: [PATCH 11/45] fix: apply the signal debounce also to new listeners

The setting reached only the listeners that existed when it was made, i.e.
none at all when the --debounce flag is applied at startup.
---
 rx/receiver.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rx/receiver.go b/rx/receiver.go
index 71516e4..8540803 100644
--- a/rx/receiver.go
+++ b/rx/receiver.go
@@ -24,6 +24,7 @@ const (
 	defaultPeakThreshold    = 15
 	defaultEdgeWidth        = 70
 	defaultListenerPoolSize = 30
+	defaultSignalDebounce   = 1
 )
 
 type Clock interface {
@@ -86,6 +87,7 @@ type Receiver[T, F dsp.Number] struct {
 	listeners         *ListenerPool[T, F]
 	silenceTimeout    time.Duration
 	attachmentTimeout time.Duration
+	signalDebounce    int
 
 	scope scope.Scope
 }
@@ -103,6 +105,7 @@ func NewReceiver[T, F dsp.Number](id string, mode ReceiverMode, clock Clock) *Re
 		edgeWidth:         defaultEdgeWidth,
 		silenceTimeout:    defaultSilenceTimeout,
 		attachmentTimeout: defaultAttachmentTimeout,
+		signalDebounce:    defaultSignalDebounce,
 
 		fft: dsp.NewFFT[T](),
 		out: NewChannelWriter(os.Stdout),
@@ -123,6 +126,7 @@ func (r *Receiver[T, F]) newListener(id string) *Listener[T, F] {
 	result := NewListener[T, F](id, r.out.Channel(id), r.clock, r, r.sampleRate, r.blockSize)
 	result.SetAttachmentTimeout(r.attachmentTimeout)
 	result.SetSilenceTimeout(r.silenceTimeout)
+	result.SetSignalDebounce(r.signalDebounce)
 	result.SetScope(r.scope)
 	return result
 }
@@ -246,6 +250,7 @@ func (r *Receiver[T, F]) SetAttachmentTimeout(timeout time.Duration) {
 
 func (r *Receiver[T, F]) SetSignalDebounce(debounce int) {
 	r.do(func() {
+		r.signalDebounce = debounce
 		r.listeners.ForEach(func(l *Listener[T, F]) {
 			l.SetSignalDebounce(debounce)
 		})
-- 
2.43.0


From 20f1793a802d9159643d0dec375fc33570e98627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:48 +0000
Subject: [PATCH 12/45] fix: starting and stopping the receiver is safe while
 data and settings arrive

Stop detached the listeners while the worker still used them and closed
channels that other goroutines might just be sending to, a setting made while
the receiver stops could hang forever, and asking a stopped receiver for its
center frequency always did.
---
 rx/receiver.go | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/rx/receiver.go b/rx/receiver.go
index 8540803..adefb10 100644
--- a/rx/receiver.go
+++ b/rx/receiver.go
@@ -6,6 +6,7 @@ import (
 	"log"
 	"math"
 	"os"
+	"sync"
 	"time"
 
 	"github.com/ftl/sdrainer/dsp"
@@ -75,6 +76,7 @@ type Receiver[T, F dsp.Number] struct {
 	centerFrequency F
 	vfoOffset       F
 
+	lifecycle        sync.RWMutex // guards starting and stopping
 	in               chan []T
 	op               chan func()
 	stop             chan struct{}
@@ -132,6 +134,9 @@ func (r *Receiver[T, F]) newListener(id string) *Listener[T, F] {
 }
 
 func (r *Receiver[T, F]) Start(sampleRate int, blockSize int) {
+	r.lifecycle.Lock()
+	defer r.lifecycle.Unlock()
+
 	if r.in != nil {
 		return
 	}
@@ -150,16 +155,16 @@ func (r *Receiver[T, F]) Start(sampleRate int, blockSize int) {
 }
 
 func (r *Receiver[T, F]) Stop() {
+	r.lifecycle.Lock()
+	defer r.lifecycle.Unlock()
+
 	if r.in == nil {
 		return
 	}
 
-	r.listeners.Reset()
-
 	close(r.stop)
 	<-r.stopped
-	close(r.in)
-	close(r.op)
+	r.listeners.Reset()
 
 	r.stop = nil
 	r.stopped = nil
@@ -167,11 +172,24 @@ func (r *Receiver[T, F]) Stop() {
 	r.op = nil
 }
 
+// do executes the given function in the receiver's goroutine, or immediately if the receiver is not running.
 func (r *Receiver[T, F]) do(f func()) {
-	if r.op == nil {
-		f()
-	} else {
-		r.op <- f
+	for {
+		r.lifecycle.Lock()
+		op, stopped := r.op, r.stopped
+		if op == nil {
+			f()
+			r.lifecycle.Unlock()
+			return
+		}
+		r.lifecycle.Unlock()
+
+		select {
+		case op <- f:
+			return
+		case <-stopped:
+			// try again, the receiver was stopped in the meantime
+		}
 	}
 }
 
@@ -267,7 +285,7 @@ func (r *Receiver[T, F]) SetCenterFrequency(frequency F) {
 }
 
 func (r *Receiver[T, F]) CenterFrequency() F {
-	result := make(chan F)
+	result := make(chan F, 1)
 	r.do(func() {
 		result <- r.centerFrequency
 	})
@@ -318,6 +336,12 @@ func (r *Receiver[T, F]) SetVFOOffset(offset F) {
 }
 
 func (r *Receiver[T, F]) IQData(sampleRate int, data []T) {
+	if !r.lifecycle.TryRLock() {
+		// starting or stopping right now
+		return
+	}
+	defer r.lifecycle.RUnlock()
+
 	if r.in == nil {
 		return
 	}
-- 
2.43.0


From d9ddb0c839eacd77e64a8ddb4a32baf9c020df06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:31 +0000
Subject: [PATCH 13/45] fix: ignore KiwiSDR sound messages that are too short

A sound message without the complete header crashed the program.
---
 kiwi/client.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kiwi/client.go b/kiwi/client.go
index 4bb27cb..9c76533 100644
--- a/kiwi/client.go
+++ b/kiwi/client.go
@@ -28,6 +28,8 @@ Resources:
 const (
 	defaultHostname = "localhost"
 	defaultPort     = 8073
+
+	iqHeaderSize = 17
 )
 
 type kiwiTag string
@@ -289,7 +291,10 @@ func decodeIQMessage(iqData []float32, payload []byte) ([]float32, error) {
 	// rssi := 0.1*float32(smeter) - 127
 	// 10 more bytes of GPS information are ignored
 
-	iqBytes := payload[17:]
+	if len(payload) < iqHeaderSize {
+		return iqData, fmt.Errorf("IQ message too short: %d bytes", len(payload))
+	}
+	iqBytes := payload[iqHeaderSize:]
 	iqData = decodeIQBytes(iqData, iqBytes)
 
 	return iqData, nil
-- 
2.43.0


From 0c3a8a567d4cfb93abe64c64555743ac9d380ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:39 +0000
Subject: [PATCH 14/45] fix: do not overwrite KiwiSDR IQ data that is still
 queued

All messages were decoded into the same buffer while the receiver had parts of
that buffer still queued for processing.
---
 kiwi/client.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kiwi/client.go b/kiwi/client.go
index 9c76533..d643802 100644
--- a/kiwi/client.go
+++ b/kiwi/client.go
@@ -83,7 +83,6 @@ type Client struct {
 	connected     bool
 	keepalive     bool
 
-	iqBuffer    []float32
 	kiwiHandler KiwiHandler
 
 	out    chan string
@@ -197,15 +196,16 @@ func (c *Client) readLoop(conn clientConn) {
 					c.kiwiHandler.Connected(c.audioRate)
 				}
 			case sndTag:
+				var iqData []float32
 				if c.kiwiHandler == nil {
 					err = fmt.Errorf("no KiwiHandler available")
 				} else if c.audioRate == 0 {
 					err = fmt.Errorf("received IQ data with unknown audio rate")
 				} else {
-					c.iqBuffer, err = decodeIQMessage(c.iqBuffer, payload)
+					iqData, err = decodeIQMessage(nil, payload)
 				}
 				if err == nil {
-					c.kiwiHandler.IQData(c.audioRate, c.iqBuffer)
+					c.kiwiHandler.IQData(c.audioRate, iqData)
 				}
 			default:
 				log.Printf("received message with unknown tag: %s %d bytes", tag, len(payload))
-- 
2.43.0


From 7ca53dedb4fdca3085ed949a87153fcdaca1646e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:46 +0000
Subject: [PATCH 15/45] fix: closing the KiwiSDR connection from several sides
 is safe and complete

The reader, the writer and Close closed the same channel independently of each
other, which crashes when a write error and a read error coincide. Nobody
closed the websocket on Close, so the reader kept waiting for messages.
---
 kiwi/client.go | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/kiwi/client.go b/kiwi/client.go
index d643802..e212b98 100644
--- a/kiwi/client.go
+++ b/kiwi/client.go
@@ -10,6 +10,7 @@ import (
 	"net/url"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/ftl/sdrainer/cli"
@@ -85,9 +86,11 @@ type Client struct {
 
 	kiwiHandler KiwiHandler
 
-	out    chan string
-	close  chan struct{}
-	closed chan struct{}
+	out        chan string
+	closeOnce  sync.Once
+	close      chan struct{}
+	closed     chan struct{}
+	readClosed chan struct{}
 }
 
 func Open(host string, username string, password string, centerFrequency float64, bandwidth int, kiwiHandler KiwiHandler) (*Client, error) {
@@ -142,9 +145,10 @@ func newClient(host string, keepalive bool, kiwiHandler KiwiHandler) (*Client, e
 
 		keepalive: keepalive,
 
-		out:    make(chan string),
-		close:  make(chan struct{}),
-		closed: make(chan struct{}),
+		out:        make(chan string),
+		close:      make(chan struct{}),
+		closed:     make(chan struct{}),
+		readClosed: make(chan struct{}),
 	}
 
 	return result, nil
@@ -165,7 +169,8 @@ func (c *Client) connect() (clientConn, error) {
 }
 
 func (c *Client) readLoop(conn clientConn) {
-	defer conn.Close()
+	defer close(c.readClosed)
+	defer c.shutdown()
 	for {
 		select {
 		case <-c.closed:
@@ -174,7 +179,6 @@ func (c *Client) readLoop(conn clientConn) {
 			msgType, msgBytes, err := conn.ReadMessage()
 			if err != nil {
 				log.Printf("cannot read next message from websocket: %v", err)
-				close(c.close)
 				return
 			}
 			if msgType != websocket.BinaryMessage {
@@ -214,7 +218,6 @@ func (c *Client) readLoop(conn clientConn) {
 			if err == ErrTooBusy || err == ErrBadPassword || err == ErrDown {
 				log.Printf("error message: %s", payload)
 				log.Print(err)
-				close(c.close)
 				return
 			}
 
@@ -314,6 +317,8 @@ func decodeIQBytes(iqData []float32, iqBytes []byte) []float32 {
 
 func (c *Client) writeLoop(conn clientConn) {
 	defer close(c.closed)
+	defer conn.Close() // this also unblocks the reader
+	defer c.shutdown()
 
 	keepaliveMessage := []byte("SET keepalive")
 	keepalive := time.NewTicker(5 * time.Second)
@@ -333,7 +338,6 @@ func (c *Client) writeLoop(conn clientConn) {
 		}
 		if err != nil {
 			log.Printf("cannot write message to websocket: %v", err)
-			close(c.close)
 			return
 		}
 	}
@@ -367,16 +371,18 @@ func (c *Client) send(format string, args ...any) error {
 	return nil
 }
 
-func (c *Client) Close() {
-	select {
-	case <-c.close:
-		return
-	case <-c.closed:
-		return
-	default:
+// shutdown tells the reader and the writer to end. It is safe to call it several times.
+func (c *Client) shutdown() {
+	c.closeOnce.Do(func() {
 		close(c.close)
-		<-c.closed
-	}
+	})
+}
+
+// Close the connection and wait until the reader and the writer ended.
+func (c *Client) Close() {
+	c.shutdown()
+	<-c.closed
+	<-c.readClosed
 }
 
 func nextClientNumber() int64 {
-- 
2.43.0


From 6061879f40f4fa288e4c9f68823a538fc262d0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:53 +0000
Subject: [PATCH 16/45] fix: opening a KiwiSDR connection fails if the server
 refuses it

When the connection was closed during the setup, e.g. because the KiwiSDR is
too busy, the next setup message was never taken and Open hung forever.
---
 kiwi/client.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/kiwi/client.go b/kiwi/client.go
index e212b98..9fbd5ae 100644
--- a/kiwi/client.go
+++ b/kiwi/client.go
@@ -61,6 +61,7 @@ var (
 	ErrTooBusy     = errors.New("kiwi too busy")
 	ErrBadPassword = errors.New("bad password")
 	ErrDown        = errors.New("kiwi down")
+	ErrClosed      = errors.New("connection to the kiwi is closed")
 )
 
 type clientConn interface {
@@ -108,8 +109,12 @@ func Open(host string, username string, password string, centerFrequency float64
 	go client.readLoop(conn)
 	go client.writeLoop(conn)
 
-	client.sendAuthentication(username, password)
-	client.sendSetup(
+	err = client.sendAuthentication(username, password)
+	if err != nil {
+		client.Close()
+		return nil, err
+	}
+	err = client.sendSetup(
 		"SET AR OK in=12000 out=48000",
 		"SET squelch=0 max=0",
 		"SET lms_autonotch=0",
@@ -118,11 +123,19 @@ func Open(host string, username string, password string, centerFrequency float64
 		"SET agc=0 hang=0 thresh=-100 slope=6 decay=1000 manGain=50",
 		"SET compression=0",
 	)
+	if err != nil {
+		client.Close()
+		return nil, err
+	}
 
 	lowCut := -(bandwidth / 2)
 	highCut := bandwidth / 2
 
-	client.setVFO(iqMode, lowCut, highCut, centerFrequency)
+	err = client.setVFO(iqMode, lowCut, highCut, centerFrequency)
+	if err != nil {
+		client.Close()
+		return nil, err
+	}
 
 	return client, nil
 }
@@ -367,8 +380,12 @@ func (c *Client) setVFO(mode kiwiMode, lowCut int, highCut int, centerFrequency
 }
 
 func (c *Client) send(format string, args ...any) error {
-	c.out <- fmt.Sprintf(format, args...)
-	return nil
+	select {
+	case c.out <- fmt.Sprintf(format, args...):
+		return nil
+	case <-c.closed:
+		return ErrClosed
+	}
 }
 
 // shutdown tells the reader and the writer to end. It is safe to call it several times.
-- 
2.43.0


From e0ea7761a121adbde75701a070f62137edea58d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 17/45] fix: connect also to KiwiSDR hosts with an IPv6 address

---
 kiwi/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiwi/client.go b/kiwi/client.go
index 9fbd5ae..84c45a7 100644
--- a/kiwi/client.go
+++ b/kiwi/client.go
@@ -168,7 +168,7 @@ func newClient(host string, keepalive bool, kiwiHandler KiwiHandler) (*Client, e
 }
 
 func (c *Client) connect() (clientConn, error) {
-	hostUrl, err := url.Parse(fmt.Sprintf("ws://%s:%d/%d/SND", c.host.IP.String(), c.host.Port, nextClientNumber()))
+	hostUrl, err := url.Parse(fmt.Sprintf("ws://%s/%d/SND", net.JoinHostPort(c.host.IP.String(), strconv.Itoa(c.host.Port)), nextClientNumber()))
 	if err != nil {
 		return nil, fmt.Errorf("cannot build KiwiSDR URL: %v", err)
 	}
-- 
2.43.0


From 4925ccb21ad76aaf4ff5b207fd1dc52ecbbb0447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:58 +0000
Subject: [PATCH 18/45] fix: closing the KiwiSDR connection does not wait for a
 stalled server

The writer can be blocked in a write to the websocket, only closing the
websocket gets it out of there.
---
 kiwi/client.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kiwi/client.go b/kiwi/client.go
index 84c45a7..92e9699 100644
--- a/kiwi/client.go
+++ b/kiwi/client.go
@@ -78,6 +78,7 @@ type KiwiHandler interface {
 
 type Client struct {
 	host *net.TCPAddr
+	conn clientConn
 
 	configuration kiwiConfiguration
 	compression   bool
@@ -104,6 +105,7 @@ func Open(host string, username string, password string, centerFrequency float64
 	if err != nil {
 		return nil, err
 	}
+	client.conn = conn
 	log.Printf("connected to KiwiSDR %s", host)
 
 	go client.readLoop(conn)
@@ -330,7 +332,6 @@ func decodeIQBytes(iqData []float32, iqBytes []byte) []float32 {
 
 func (c *Client) writeLoop(conn clientConn) {
 	defer close(c.closed)
-	defer conn.Close() // this also unblocks the reader
 	defer c.shutdown()
 
 	keepaliveMessage := []byte("SET keepalive")
@@ -388,10 +389,11 @@ func (c *Client) send(format string, args ...any) error {
 	}
 }
 
-// shutdown tells the reader and the writer to end. It is safe to call it several times.
+// shutdown tells the reader and the writer to end and unblocks them. It is safe to call it several times.
 func (c *Client) shutdown() {
 	c.closeOnce.Do(func() {
 		close(c.close)
+		c.conn.Close()
 	})
 }
 
-- 
2.43.0


From d609c9a1eece0e8264a576ee8978c7a09f355d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:06 +0000
Subject: [PATCH 19/45] fix: KiwiSDR data of unexpected size or rate does not
 end the program

---
 kiwi/kiwi.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kiwi/kiwi.go b/kiwi/kiwi.go
index 2df24c2..a8cc3a4 100644
--- a/kiwi/kiwi.go
+++ b/kiwi/kiwi.go
@@ -68,8 +68,9 @@ func (p *Process) Close() {
 }
 
 func (p *Process) Connected(sampleRate int) {
-	if sampleRate == 0 {
-		log.Fatal("no audio rate!")
+	if sampleRate <= 0 {
+		log.Printf("invalid audio rate: %d", sampleRate)
+		return
 	}
 
 	p.receiver.Start(sampleRate, blockSize)
@@ -94,7 +95,8 @@ func (p *Process) Connected(sampleRate int) {
 func (p *Process) IQData(sampleRate int, data []float32) {
 	const partSize = blockSize * 2
 	if len(data)%partSize != 0 {
-		panic(fmt.Errorf("data must be transferred in blocks of %d samples instead of %d", partSize, len(data)))
+		log.Printf("data must be transferred in blocks of %d samples instead of %d", partSize, len(data))
+		return
 	}
 	count := len(data) / partSize
 	for i := 0; i < count; i++ {
-- 
2.43.0


From 049e669aa9854c34af94d1a52f311d9191cb2114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:12 +0000
Subject: [PATCH 20/45] fix: KiwiSDR settings are not raced by the connection

The settings are made by the command while the reader of the connection is
already applying them to the receiver.
---
 kiwi/kiwi.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/kiwi/kiwi.go b/kiwi/kiwi.go
index a8cc3a4..11c2c42 100644
--- a/kiwi/kiwi.go
+++ b/kiwi/kiwi.go
@@ -3,6 +3,7 @@ package kiwi
 import (
 	"fmt"
 	"log"
+	"sync"
 	"time"
 
 	"github.com/ftl/sdrainer/rx"
@@ -23,6 +24,7 @@ type Process struct {
 	receiver *rx.Receiver[float32, int]
 	spotter  Spotter
 
+	settings          sync.Mutex // guards the settings and their application to the receiver
 	threshold         float32
 	centerFrequency   float64
 	rxFrequency       float64
@@ -73,12 +75,15 @@ func (p *Process) Connected(sampleRate int) {
 		return
 	}
 
+	p.settings.Lock()
+	defer p.settings.Unlock()
+
 	p.receiver.Start(sampleRate, blockSize)
 	if p.threshold != 0 {
 		p.receiver.SetPeakThreshold(p.threshold)
 	}
 	if p.rxFrequency != 0 {
-		p.SetRXFrequency(p.rxFrequency)
+		p.applyRXFrequency(p.rxFrequency)
 	}
 	if p.signalDebounce != 0 {
 		p.receiver.SetSignalDebounce(p.signalDebounce)
@@ -107,36 +112,51 @@ func (p *Process) IQData(sampleRate int, data []float32) {
 }
 
 func (p *Process) SetScope(scope scope.Scope) {
+	p.settings.Lock()
+	defer p.settings.Unlock()
 	p.scope = scope
 	p.receiver.SetScope(scope)
 }
 
 func (p *Process) SetThreshold(threshold int) {
+	p.settings.Lock()
+	defer p.settings.Unlock()
 	p.threshold = float32(threshold)
 	p.receiver.SetPeakThreshold(float32(threshold))
 }
 
 func (p *Process) SetRXFrequency(frequency float64) {
+	p.settings.Lock()
+	defer p.settings.Unlock()
 	p.rxFrequency = frequency
 	if frequency == 0 {
 		return
 	}
+	p.applyRXFrequency(frequency)
+}
 
+func (p *Process) applyRXFrequency(frequency float64) {
 	delta := int(frequency - p.centerFrequency)
 	p.receiver.SetVFOOffset(delta)
 }
 
 func (p *Process) SetSilenceTimeout(timeout time.Duration) {
+	p.settings.Lock()
+	defer p.settings.Unlock()
 	p.silenceTimeout = timeout
 	p.receiver.SetSilenceTimeout(timeout)
 }
 
 func (p *Process) SetAttachmentTimeout(timeout time.Duration) {
+	p.settings.Lock()
+	defer p.settings.Unlock()
 	p.attachmentTimeout = timeout
 	p.receiver.SetAttachmentTimeout(timeout)
 }
 
 func (p *Process) SetSignalDebounce(debounce int) {
+	p.settings.Lock()
+	defer p.settings.Unlock()
 	p.signalDebounce = debounce
 	p.receiver.SetSignalDebounce(debounce)
 }
-- 
2.43.0


From 9980949dc5f8377a33bb8fe91ed942c0ee51ad95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:04 +0000
Subject: [PATCH 21/45] fix: do not leave the receiver running if the KiwiSDR
 cannot be opened

---
 kiwi/kiwi.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kiwi/kiwi.go b/kiwi/kiwi.go
index 11c2c42..bdf8a8b 100644
--- a/kiwi/kiwi.go
+++ b/kiwi/kiwi.go
@@ -51,6 +51,7 @@ func New(host string, username string, password string, centerFrequency float64,
 
 	client, err := Open(host, username, password, centerFrequency, bandwidth, result)
 	if err != nil {
+		result.receiver.Stop()
 		return nil, fmt.Errorf("cannot open KiwiSDR client: %v", err)
 	}
 	result.client = client
-- 
2.43.0


From 45131f6944466dbaf679b1ec3ad0bd1e7131b54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:11 +0000
Subject: [PATCH 22/45] fix: stopping the telnet server releases its port

The listening socket was never closed. Stop was also not safe to be called
again before the server ended.
---
 telnet/telnet.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index 4b11e48..c4bc0cb 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -9,6 +9,7 @@ import (
 	"log"
 	"net"
 	"os"
+	"sync"
 	"time"
 )
 
@@ -38,9 +39,10 @@ type Server struct {
 	lastSpots     map[spotHash]time.Time
 	silencePeriod time.Duration
 
-	msg    chan []byte
-	close  chan struct{}
-	closed chan struct{}
+	msg       chan []byte
+	closeOnce sync.Once
+	close     chan struct{}
+	closed    chan struct{}
 }
 
 func NewServer(address string, mycall string, version string) (*Server, error) {
@@ -73,6 +75,7 @@ func NewServer(address string, mycall string, version string) (*Server, error) {
 
 func (s *Server) run() {
 	defer close(s.closed)
+	defer s.listener.Close()
 	welcome := fmt.Sprintf("SDRainer Version %s\n", s.version)
 
 	removeConnections := make([]int, 0, 10)
@@ -139,13 +142,10 @@ func (s *Server) removeConnection(index int) {
 }
 
 func (s *Server) Stop() {
-	select {
-	case <-s.closed:
-		return
-	default:
+	s.closeOnce.Do(func() {
 		close(s.close)
-		<-s.closed
-	}
+	})
+	<-s.closed
 }
 
 func (s *Server) SetSilencePeriod(silencePeriod time.Duration) {
-- 
2.43.0


From caec570df65d39040a80fda1d6308c1655b65924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:17 +0000
Subject: [PATCH 23/45] fix: spots can be announced concurrently and while the
 server is stopped

The history of spots and the silence period were used without any
synchronisation, and Spot hung forever once the server was stopped.
---
 telnet/telnet.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index c4bc0cb..1394d67 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -36,6 +36,7 @@ type Server struct {
 
 	connections []*Connection
 
+	spotsLock     sync.Mutex // guards lastSpots and silencePeriod
 	lastSpots     map[spotHash]time.Time
 	silencePeriod time.Duration
 
@@ -149,15 +150,30 @@ func (s *Server) Stop() {
 }
 
 func (s *Server) SetSilencePeriod(silencePeriod time.Duration) {
+	s.spotsLock.Lock()
+	defer s.spotsLock.Unlock()
 	s.silencePeriod = silencePeriod
 }
 
 func (s *Server) Spot(callsign string, frequency float64, msg string, timestamp time.Time) {
 	hash := newSpotHash(callsign, frequency)
-	if s.shouldAnnounce(hash, timestamp) {
-		s.msg <- []byte(s.formatSpotMessage(callsign, frequency, msg, timestamp))
-		s.registerSpot(hash, timestamp)
+	if s.announce(hash, timestamp) {
+		select {
+		case s.msg <- []byte(s.formatSpotMessage(callsign, frequency, msg, timestamp)):
+		case <-s.closed:
+		}
+	}
+}
+
+// announce registers the given spot and returns true if the spot should be announced.
+func (s *Server) announce(hash spotHash, timestamp time.Time) bool {
+	s.spotsLock.Lock()
+	defer s.spotsLock.Unlock()
+	if !s.shouldAnnounce(hash, timestamp) {
+		return false
 	}
+	s.registerSpot(hash, timestamp)
+	return true
 }
 
 func (s *Server) shouldAnnounce(hash spotHash, timestamp time.Time) bool {
-- 
2.43.0


From f29c2912dc0e612de8be87be0cc4338f2f453a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:24 +0000
Subject: [PATCH 24/45] fix: a telnet client that left or does not read cannot
 block the server

The hand-offs between the server, the connection and its reader had no way out
when the other side ended, a client that does not read anymore blocked the
server and thereby all spots, and the end of a connection was not noticed.
---
 telnet/telnet.go | 68 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 24 deletions(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index 1394d67..437def9 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -16,6 +16,7 @@ import (
 const (
 	newConnectionDeadline     = 100 * time.Millisecond
 	connectionKeepAlivePeriod = 30 * time.Second
+	connectionQueueSize       = 100
 	readBufferSize            = 1024
 	defaultSpotSilencePeriod  = 4 * time.Minute
 )
@@ -208,8 +209,9 @@ type Connection struct {
 	currentPrompt *Prompt
 	currentAnswer string
 
-	close  chan struct{}
-	closed chan struct{}
+	closeOnce sync.Once
+	close     chan struct{}
+	closed    chan struct{}
 
 	user string
 }
@@ -217,7 +219,7 @@ type Connection struct {
 func NewConnection(conn io.ReadWriteCloser, welcome string) *Connection {
 	result := &Connection{
 		conn:  conn,
-		msg:   make(chan []byte, 1),
+		msg:   make(chan []byte, connectionQueueSize),
 		input: make(chan []byte, 1),
 
 		currentAnswer: "",
@@ -226,22 +228,15 @@ func NewConnection(conn io.ReadWriteCloser, welcome string) *Connection {
 		closed: make(chan struct{}),
 	}
 
-	result.writeAll([]byte(welcome))
-
-	go result.run()
+	go result.run(welcome)
 	go result.readLoop()
 
 	return result
 }
 
-func (c *Connection) run() {
+func (c *Connection) run(welcome string) {
 	defer close(c.closed)
-	defer func() {
-		err := c.conn.Close()
-		if err != nil {
-			log.Printf("close %s: %v", c.user, err)
-		}
-	}()
+	defer c.shutdown()
 
 	ignoreInputPrompt := &Prompt{
 		Question: "",
@@ -257,9 +252,16 @@ func (c *Connection) run() {
 		},
 	}
 
-	err := c.startPrompt(inputCallsignPrompt)
+	err := c.writeAll([]byte(welcome))
 	if err != nil {
 		log.Printf("%s: %v", c.user, err)
+		return
+	}
+
+	err = c.startPrompt(inputCallsignPrompt)
+	if err != nil {
+		log.Printf("%s: %v", c.user, err)
+		return
 	}
 
 	for {
@@ -286,7 +288,7 @@ func (c *Connection) run() {
 				err := c.startPrompt(nextPrompt)
 				if err != nil {
 					log.Printf("%s: %v", c.user, err)
-					continue
+					return
 				}
 			}
 		}
@@ -294,6 +296,7 @@ func (c *Connection) run() {
 }
 
 func (c *Connection) readLoop() {
+	defer c.shutdown()
 	readBuffer := make([]byte, readBufferSize)
 	for {
 		n, err := c.conn.Read(readBuffer)
@@ -310,7 +313,11 @@ func (c *Connection) readLoop() {
 
 		bytes := make([]byte, n)
 		copy(bytes, readBuffer[:n])
-		c.input <- bytes
+		select {
+		case c.input <- bytes:
+		case <-c.closed:
+			return
+		}
 	}
 }
 
@@ -350,14 +357,20 @@ func (c *Connection) parseAnswerByte(answerByte byte) (string, *Prompt) {
 	}
 }
 
-func (c *Connection) Close() {
-	select {
-	case <-c.closed:
-		return
-	default:
+// shutdown tells the connection to end and unblocks it. It is safe to call it several times.
+func (c *Connection) shutdown() {
+	c.closeOnce.Do(func() {
 		close(c.close)
-		<-c.closed
-	}
+		err := c.conn.Close()
+		if err != nil {
+			log.Printf("close %s: %v", c.user, err)
+		}
+	})
+}
+
+func (c *Connection) Close() {
+	c.shutdown()
+	<-c.closed
 }
 
 func (c *Connection) Write(bytes []byte) (int, error) {
@@ -365,8 +378,15 @@ func (c *Connection) Write(bytes []byte) (int, error) {
 	case <-c.closed:
 		return 0, net.ErrClosed
 	default:
-		c.msg <- bytes
+	}
+
+	select {
+	case c.msg <- bytes:
 		return len(bytes), nil
+	default:
+		// the client does not read, do not wait for it
+		c.shutdown()
+		return 0, net.ErrClosed
 	}
 }
 
-- 
2.43.0


From b50c54b4440cf15fa13e81083e82e09dcd721dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:30 +0000
Subject: [PATCH 25/45] fix: the name of a telnet client is not raced

The name is set by the connection and read by the server and the reader.
---
 telnet/telnet.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index 437def9..7cff253 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -213,7 +213,8 @@ type Connection struct {
 	close     chan struct{}
 	closed    chan struct{}
 
-	user string
+	userLock sync.Mutex // guards user
+	user     string
 }
 
 func NewConnection(conn io.ReadWriteCloser, welcome string) *Connection {
@@ -247,20 +248,20 @@ func (c *Connection) run(welcome string) {
 	inputCallsignPrompt := &Prompt{
 		Question: "Enter your callsign: ",
 		Answer: func(answer string) (string, *Prompt) {
-			c.user = answer
-			return fmt.Sprintf("welcome %s\n", c.user), ignoreInputPrompt
+			c.setUser(answer)
+			return fmt.Sprintf("welcome %s\n", answer), ignoreInputPrompt
 		},
 	}
 
 	err := c.writeAll([]byte(welcome))
 	if err != nil {
-		log.Printf("%s: %v", c.user, err)
+		log.Printf("%s: %v", c.String(), err)
 		return
 	}
 
 	err = c.startPrompt(inputCallsignPrompt)
 	if err != nil {
-		log.Printf("%s: %v", c.user, err)
+		log.Printf("%s: %v", c.String(), err)
 		return
 	}
 
@@ -271,7 +272,7 @@ func (c *Connection) run(welcome string) {
 		case bytes := <-c.msg:
 			err := c.writeAll(bytes)
 			if err != nil {
-				log.Printf("%s: %v", c.user, err)
+				log.Printf("%s: %v", c.String(), err)
 				return
 			}
 		case bytes := <-c.input:
@@ -280,14 +281,14 @@ func (c *Connection) run(welcome string) {
 				if response != "" {
 					err := c.writeAll([]byte(response))
 					if err != nil {
-						log.Printf("%s: %v", c.user, err)
+						log.Printf("%s: %v", c.String(), err)
 						return
 					}
 				}
 
 				err := c.startPrompt(nextPrompt)
 				if err != nil {
-					log.Printf("%s: %v", c.user, err)
+					log.Printf("%s: %v", c.String(), err)
 					return
 				}
 			}
@@ -303,7 +304,7 @@ func (c *Connection) readLoop() {
 		if errors.Is(err, os.ErrClosed) || errors.Is(err, net.ErrClosed) || errors.Is(err, io.EOF) {
 			return
 		} else if err != nil {
-			log.Printf("%s: %v", c.user, err)
+			log.Printf("%s: %v", c.String(), err)
 			return
 		}
 
@@ -363,7 +364,7 @@ func (c *Connection) shutdown() {
 		close(c.close)
 		err := c.conn.Close()
 		if err != nil {
-			log.Printf("close %s: %v", c.user, err)
+			log.Printf("close %s: %v", c.String(), err)
 		}
 	})
 }
@@ -390,6 +391,14 @@ func (c *Connection) Write(bytes []byte) (int, error) {
 	}
 }
 
+func (c *Connection) setUser(user string) {
+	c.userLock.Lock()
+	defer c.userLock.Unlock()
+	c.user = user
+}
+
 func (c *Connection) String() string {
+	c.userLock.Lock()
+	defer c.userLock.Unlock()
 	return c.user
 }
-- 
2.43.0


From 83824ae0d4be785b279fac334478649525041431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:37 +0000
Subject: [PATCH 26/45] fix: write the complete message to a telnet client

After a partial write, the rest of the message was lost.
---
 telnet/telnet.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index 7cff253..b528147 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -323,17 +323,13 @@ func (c *Connection) readLoop() {
 }
 
 func (c *Connection) writeAll(bytes []byte) error {
-	n := 0
 	buffer := bytes
-	for n < len(buffer) {
-		var err error
-		n, err = c.conn.Write(buffer)
+	for len(buffer) > 0 {
+		n, err := c.conn.Write(buffer)
 		if err != nil {
 			return err
 		}
-		if n < len(buffer) {
-			buffer = buffer[n:]
-		}
+		buffer = buffer[n:]
 	}
 	return nil
 }
-- 
2.43.0


From 9ce26a579a3ee31398613313a64fd307d395ee47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:43 +0000
Subject: [PATCH 27/45] fix: limit the length of the input line of a telnet
 client

A client that never sends a line end made the program use more and more memory.
---
 telnet/telnet.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index b528147..67c0269 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -18,6 +18,7 @@ const (
 	connectionKeepAlivePeriod = 30 * time.Second
 	connectionQueueSize       = 100
 	readBufferSize            = 1024
+	maxAnswerLength           = 256
 	defaultSpotSilencePeriod  = 4 * time.Minute
 )
 
@@ -349,7 +350,9 @@ func (c *Connection) parseAnswerByte(answerByte byte) (string, *Prompt) {
 		c.currentAnswer = ""
 		return response, nextPrompt
 	default:
-		c.currentAnswer += string(answerByte)
+		if len(c.currentAnswer) < maxAnswerLength {
+			c.currentAnswer += string(answerByte)
+		}
 		return "", nil
 	}
 }
-- 
2.43.0


From 875d073d76a3488520951b0c4cc33a8a8c33224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:18 +0000
Subject: [PATCH 28/45] fix: report the callsigns spotted on the KiwiSDR

The process was never registered as reporter of its receiver and ignored all
events, so the telnet server never announced a spot. The receiver also did not
know its center frequency.
---
 kiwi/kiwi.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/kiwi/kiwi.go b/kiwi/kiwi.go
index bdf8a8b..3d6d1f6 100644
--- a/kiwi/kiwi.go
+++ b/kiwi/kiwi.go
@@ -45,6 +45,8 @@ func New(host string, username string, password string, centerFrequency float64,
 		scope:           scope.NewNullScope(),
 	}
 	result.receiver = rx.NewReceiver[float32, int]("", rx.StrainMode, rx.WallClock)
+	result.receiver.AddReporter(result)
+	result.receiver.SetCenterFrequency(int(centerFrequency))
 
 	edgeWidth := int(float32((maxBandwidth-bandwidth)/2) * (float32(blockSize) / float32(maxBandwidth)))
 	result.receiver.SetEdgeWidth(edgeWidth)
@@ -166,5 +168,9 @@ func (p *Process) ListenerActivated(listener string, frequency int)   {}
 func (p *Process) ListenerDeactivated(listener string, frequency int) {}
 func (p *Process) CallsignDecoded(listener string, callsign string, frequency int, count int, weight int) {
 }
-func (p *Process) CallsignSpotted(listener string, callsign string, frequency int) {}
-func (p *Process) SpotTimeout(listener string, callsign string, frequency int)     {}
+func (p *Process) CallsignSpotted(listener string, callsign string, frequency int) {
+	if p.spotter != nil {
+		p.spotter.Spot(callsign, float64(frequency), "cw", time.Now().UTC())
+	}
+}
+func (p *Process) SpotTimeout(listener string, callsign string, frequency int) {}
-- 
2.43.0


From 4cdc91fa4e56e814a754c1eb549550919a86a1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:25 +0000
Subject: [PATCH 29/45] fix: accept IPv6 addresses as host

---
 cli/cli.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cli/cli.go b/cli/cli.go
index 6813cf2..8694042 100644
--- a/cli/cli.go
+++ b/cli/cli.go
@@ -1,7 +1,6 @@
 package cli
 
 import (
-	"fmt"
 	"net"
 	"strconv"
 	"strings"
@@ -18,7 +17,7 @@ func ParseTCPAddrArg(arg string, defaultHost string, defaultPort int) (*net.TCPA
 		port = strconv.Itoa(defaultPort)
 	}
 
-	return net.ResolveTCPAddr("tcp", fmt.Sprintf("%s:%s", host, port))
+	return net.ResolveTCPAddr("tcp", net.JoinHostPort(host, port))
 }
 
 func splitHostPort(hostport string) (host, port string) {
-- 
2.43.0


From beb54faf71dd24fbcb9b5d6cd5a297c2e606dd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:31 +0000
Subject: [PATCH 30/45] fix: apply the --wpm flag to the audio decoder

---
 cmd/pulse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/pulse.go b/cmd/pulse.go
index 4d3940b..40c993c 100644
--- a/cmd/pulse.go
+++ b/cmd/pulse.go
@@ -59,6 +59,7 @@ func runPulse(ctx context.Context, scope scope.Scope, cmd *cobra.Command, args [
 	demodulator.SetScale(pulseFlags.scale)
 	demodulator.SetDebounceThreshold(decodeFlags.debounce)
 	demodulator.SetMagnitudeThreshold(pulseFlags.magnitudeThreshold)
+	demodulator.PresetWPM(pulseFlags.wpm)
 	demodulator.SetScope(scope)
 
 	stream, err := client.NewRecord(pulse.Float32Writer(demodulator.Write), pulse.RecordBufferFragmentSize(2*uint32(demodulator.Blocksize())))
-- 
2.43.0


From a18dba88266777fb634e1db9a52a96533fd19626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:37 +0000
Subject: [PATCH 31/45] fix: add the missing --threshold flag for KiwiSDRs

The threshold was used, but no flag was bound to it. All peaks above the noise
floor were considered as signal.
---
 cmd/kiwi.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/kiwi.go b/cmd/kiwi.go
index 61d73d6..5a6b89e 100644
--- a/cmd/kiwi.go
+++ b/cmd/kiwi.go
@@ -35,6 +35,7 @@ func init() {
 	strainKiwiCmd.Flags().StringVar(&kiwiFlags.password, "password", "", "the KiwiSDR password")
 	strainKiwiCmd.Flags().Float64Var(&kiwiFlags.centerFrequency, "center", 7_020_000, "the center frequency")
 	strainKiwiCmd.Flags().Float64Var(&kiwiFlags.rxFrequency, "rx", 0, "the rx frequency")
+	strainKiwiCmd.Flags().IntVar(&kiwiFlags.threshold, "threshold", 15, "the threshold in dB over noise that a signal must exceed to be detected")
 	strainKiwiCmd.Flags().IntVar(&kiwiFlags.bandwidth, "bandwidth", 10_000, "the bandwidth that is observed to find CW signals (max 12000)")
 }
 
-- 
2.43.0


From 341bbfc0f158243959ac42e8cda239866acfbeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:43 +0000
Subject: [PATCH 32/45] fix: hide the scope-address flag by its actual name

---
 cmd/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/root.go b/cmd/root.go
index a89f70a..657c978 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -47,7 +47,7 @@ func init() {
 
 	rootCmd.PersistentFlags().MarkHidden("pprof")
 	rootCmd.PersistentFlags().MarkHidden("scope")
-	rootCmd.PersistentFlags().MarkHidden("scope_address")
+	rootCmd.PersistentFlags().MarkHidden("scope-address")
 }
 
 func runWithCtx(f func(ctx context.Context, scope scope.Scope, cmd *cobra.Command, args []string)) func(cmd *cobra.Command, args []string) {
-- 
2.43.0


From 9f0380a2895660a96185b1d83a2ccb2e1e15ab53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:05 +0000
Subject: [PATCH 33/45] fix: operations on the audio demodulator wait for their
 execution

The getters returned before the value was read and thus always returned 0, and
an operation or a sample handed over while the demodulator is closed could
block forever.
---
 cw/audio.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/cw/audio.go b/cw/audio.go
index a75cfa8..c82cdda 100644
--- a/cw/audio.go
+++ b/cw/audio.go
@@ -150,7 +150,11 @@ func (d *AudioDemodulator) Write(buf []float32) (int, error) {
 	n := 0
 	for i, sample := range buf {
 		if (i % d.channelCount) == 0 {
-			d.in <- sample
+			select {
+			case d.in <- sample:
+			case <-d.closed:
+				return n, io.ErrClosedPipe
+			}
 		}
 		n++
 	}
@@ -158,11 +162,21 @@ func (d *AudioDemodulator) Write(buf []float32) (int, error) {
 }
 
 func (d *AudioDemodulator) do(f func()) {
+	executed := make(chan struct{})
+	op := func() {
+		defer close(executed)
+		f()
+	}
+
 	select {
+	case d.op <- op:
 	case <-d.closed:
 		return
-	default:
-		d.op <- f
+	}
+
+	select {
+	case <-executed:
+	case <-d.closed:
 	}
 }
 
-- 
2.43.0


From f13e9d5235ac58b29a44b2f9256038392477357f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:11 +0000
Subject: [PATCH 34/45] fix: the channel count of the audio demodulator is not
 raced

It is set by the command and used by the audio source. A source without
channels does not crash the program.
---
 cw/audio.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/cw/audio.go b/cw/audio.go
index c82cdda..6f8e5bb 100644
--- a/cw/audio.go
+++ b/cw/audio.go
@@ -4,6 +4,7 @@ import (
 	"io"
 	"log"
 	"math"
+	"sync/atomic"
 	"time"
 
 	"github.com/ftl/sdrainer/dsp"
@@ -24,7 +25,7 @@ type AudioDemodulator struct {
 	decoder      *Decoder
 	maxScale     float64
 	scale        float32
-	channelCount int
+	channelCount atomic.Int64
 
 	in     chan float32
 	op     chan func()
@@ -39,17 +40,17 @@ func NewAudioDemodulator(out io.Writer, pitch float64, sampleRate int, bufferSiz
 		bufferSize = defaultBufferSize
 	}
 	result := &AudioDemodulator{
-		filter:       dsp.NewDefaultGoertzel(pitch, sampleRate),
-		debouncer:    dsp.NewBoolDebouncer(defaultDebounceThreshold),
-		maxScale:     defaultMaxScale,
-		scale:        1,
-		channelCount: 1,
-		in:           make(chan float32, bufferSize),
-		op:           make(chan func()),
-		close:        make(chan struct{}),
-		closed:       make(chan struct{}),
-		scope:        scope.NewNullScope(),
+		filter:    dsp.NewDefaultGoertzel(pitch, sampleRate),
+		debouncer: dsp.NewBoolDebouncer(defaultDebounceThreshold),
+		maxScale:  defaultMaxScale,
+		scale:     1,
+		in:        make(chan float32, bufferSize),
+		op:        make(chan func()),
+		close:     make(chan struct{}),
+		closed:    make(chan struct{}),
+		scope:     scope.NewNullScope(),
 	}
+	result.channelCount.Store(1)
 	result.decoder = NewDecoder(out, sampleRate, result.filter.Blocksize())
 
 	go result.run()
@@ -95,9 +96,7 @@ func (d *AudioDemodulator) SetScale(scale float64) {
 }
 
 func (d *AudioDemodulator) SetChannelCount(channelCount int) {
-	d.do(func() {
-		d.channelCount = channelCount
-	})
+	d.channelCount.Store(int64(max(1, channelCount)))
 }
 
 func (d *AudioDemodulator) SetDebounceThreshold(threshold int) {
@@ -148,8 +147,9 @@ func (d *AudioDemodulator) Blocksize() int {
 
 func (d *AudioDemodulator) Write(buf []float32) (int, error) {
 	n := 0
+	channelCount := int(d.channelCount.Load())
 	for i, sample := range buf {
-		if (i % d.channelCount) == 0 {
+		if (i % channelCount) == 0 {
 			select {
 			case d.in <- sample:
 			case <-d.closed:
-- 
2.43.0


From 740cf82928d7f0f0bb71f7535e678d1267f65de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:52 +0000
Subject: [PATCH 35/45] fix: TCI settings are not raced by the connection

The settings are made by the command while the TCI client may already apply
them in its own goroutine, and the show flags are used by yet another one.
---
 tci/tci.go | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/tci/tci.go b/tci/tci.go
index a624187..dcd7ba7 100644
--- a/tci/tci.go
+++ b/tci/tci.go
@@ -2,6 +2,7 @@ package tci
 
 import (
 	"fmt"
+	"sync"
 	"time"
 
 	tci "github.com/ftl/tci/client"
@@ -29,13 +30,16 @@ type Process struct {
 	receiver *rx.Receiver[float32, int]
 	spotter  Spotter
 
+	settings          sync.Mutex // guards the settings and their application to the receiver
 	threshold         float32
 	signalDebounce    int
 	silenceTimeout    time.Duration
 	attachmentTimeout time.Duration
 	scope             scope.Scope
-	showListeners     bool
-	showSpots         bool
+
+	showLock      sync.Mutex // guards the show flags
+	showListeners bool
+	showSpots     bool
 
 	opAsync chan func()
 	close   chan struct{}
@@ -109,6 +113,8 @@ func (p *Process) doAsync(f func()) {
 }
 
 func (p *Process) SetScope(scope scope.Scope) {
+	p.settings.Lock()
+	defer p.settings.Unlock()
 	p.scope = scope
 	if p.client.Connected() {
 		p.receiver.SetScope(scope)
@@ -116,11 +122,15 @@ func (p *Process) SetScope(scope scope.Scope) {
 }
 
 func (p *Process) SetShow(listeners bool, spots bool) {
+	p.showLock.Lock()
+	defer p.showLock.Unlock()
 	p.showListeners = listeners
 	p.showSpots = spots
 }
 
 func (p *Process) SetThreshold(threshold int) {
+	p.settings.Lock()
+	defer p.settings.Unlock()
 	p.threshold = float32(threshold)
 	if p.client.Connected() {
 		p.receiver.SetPeakThreshold(float32(threshold))
@@ -128,6 +138,8 @@ func (p *Process) SetThreshold(threshold int) {
 }
 
 func (p *Process) SetSilenceTimeout(timeout time.Duration) {
+	p.settings.Lock()
+	defer p.settings.Unlock()
 	p.silenceTimeout = timeout
 	if p.client.Connected() {
 		p.receiver.SetSilenceTimeout(timeout)
@@ -135,6 +147,8 @@ func (p *Process) SetSilenceTimeout(timeout time.Duration) {
 }
 
 func (p *Process) SetAttachmentTimeout(timeout time.Duration) {
+	p.settings.Lock()
+	defer p.settings.Unlock()
 	p.attachmentTimeout = timeout
 	if p.client.Connected() {
 		p.receiver.SetAttachmentTimeout(timeout)
@@ -142,6 +156,8 @@ func (p *Process) SetAttachmentTimeout(timeout time.Duration) {
 }
 
 func (p *Process) SetSignalDebounce(debounce int) {
+	p.settings.Lock()
+	defer p.settings.Unlock()
 	p.signalDebounce = debounce
 	if p.client.Connected() {
 		p.receiver.SetSignalDebounce(debounce)
@@ -153,6 +169,9 @@ func (p *Process) onConnected(connected bool) {
 		return
 	}
 
+	p.settings.Lock()
+	defer p.settings.Unlock()
+
 	bandwidth := -p.client.MinIFFrequency + p.client.MaxIFFrequency
 	sampleRate := 48000
 	blockSize := 2048 / partCount
@@ -189,8 +208,15 @@ func (p *Process) ListenerActivated(id string, frequency int) {
 	})
 }
 
+func (p *Process) show() (listeners bool, spots bool) {
+	p.showLock.Lock()
+	defer p.showLock.Unlock()
+	return p.showListeners, p.showSpots
+}
+
 func (p *Process) showDecode(id string, frequency int) {
-	if p.showListeners {
+	showListeners, _ := p.show()
+	if showListeners {
 		p.client.DeleteSpot(id)
 		p.client.AddSpot(id, tci.ModeCW, frequency, decodeColor, "SDRainer")
 	}
@@ -215,7 +241,8 @@ func (p *Process) CallsignSpotted(_ string, callsign string, frequency int) {
 }
 
 func (p *Process) showSpot(callsign string, frequency int) {
-	if p.showSpots {
+	_, showSpots := p.show()
+	if showSpots {
 		p.client.AddSpot(">"+callsign+"<", tci.ModeCW, frequency, spotColor, "SDRainer")
 	}
 	if p.spotter != nil {
-- 
2.43.0


From 54fe345b26ace09594c46dd97719fb7cd4da7575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:59 +0000
Subject: [PATCH 36/45] fix: closing the TCI process cannot hang and leaves
 nothing running

The receiver was stopped by the goroutine that has to take the events the
receiver reports while it stops. With a full queue both waited for each other.
A connection established during the shutdown started the receiver again.
---
 tci/tci.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/tci/tci.go b/tci/tci.go
index dcd7ba7..e8f4548 100644
--- a/tci/tci.go
+++ b/tci/tci.go
@@ -42,6 +42,7 @@ type Process struct {
 	showSpots     bool
 
 	opAsync chan func()
+	closing bool // guarded by settings
 	close   chan struct{}
 	closed  chan struct{}
 }
@@ -84,20 +85,36 @@ func (p *Process) Close() {
 	case <-p.close:
 		return
 	default:
+		p.settings.Lock()
+		p.closing = true
+		p.settings.Unlock()
+
+		p.receiver.Stop()
 		close(p.close)
 		<-p.closed
 	}
 }
 
 func (p *Process) run() {
+	defer close(p.closed)
 	for {
 		select {
 		case op := <-p.opAsync:
 			op()
 		case <-p.close:
+			p.runPendingOps()
 			p.client.StopIQ(p.trx)
-			p.receiver.Stop()
-			close(p.closed)
+			return
+		}
+	}
+}
+
+func (p *Process) runPendingOps() {
+	for {
+		select {
+		case op := <-p.opAsync:
+			op()
+		default:
 			return
 		}
 	}
@@ -105,10 +122,8 @@ func (p *Process) run() {
 
 func (p *Process) doAsync(f func()) {
 	select {
+	case p.opAsync <- f:
 	case <-p.closed:
-		f()
-	default:
-		p.opAsync <- f
 	}
 }
 
@@ -171,6 +186,9 @@ func (p *Process) onConnected(connected bool) {
 
 	p.settings.Lock()
 	defer p.settings.Unlock()
+	if p.closing {
+		return
+	}
 
 	bandwidth := -p.client.MinIFFrequency + p.client.MaxIFFrequency
 	sampleRate := 48000
-- 
2.43.0


From 8012ff7e23977b2c2c05cf514ef985a127ffc808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:36 +0000
Subject: [PATCH 37/45] fix: removing several unresponsive scope clients at
 once does not crash

Streams were removed from the list while it was being walked. With three or
more streams, a removed stream was closed again or the index was out of range.
---
 scope/server_grpc.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/scope/server_grpc.go b/scope/server_grpc.go
index e6ee85e..c5630ce 100644
--- a/scope/server_grpc.go
+++ b/scope/server_grpc.go
@@ -65,24 +65,17 @@ func (s *grpcServer) addStream(out chan *pb.Frame) {
 	s.out = append(s.out, out)
 }
 
-func (s *grpcServer) removeStream(i int) {
-	if len(s.out) == 1 {
-		s.out = nil
-		return
-	}
-	s.out[i] = s.out[len(s.out)-1]
-	s.out = s.out[:len(s.out)-1]
-}
-
 func (s *grpcServer) sendFrameToStreams(frame *pb.Frame) {
-	for i, out := range s.out {
+	remaining := make([]chan *pb.Frame, 0, len(s.out))
+	for _, out := range s.out {
 		select {
 		case out <- frame:
+			remaining = append(remaining, out)
 		default:
 			close(out)
-			s.removeStream(i)
 		}
 	}
+	s.out = remaining
 }
 
 func (s *grpcServer) getFrameStream() chan *pb.Frame {
-- 
2.43.0


From 1bbc59de495ce37240e28fd68fb0e9d2bf787066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:43 +0000
Subject: [PATCH 38/45] fix: frames and clients arriving while the scope server
 stops are harmless

The worker closed the channels that others still sent to, and a frame or a
client that came after the end of the worker was stuck forever.
---
 scope/server_grpc.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/scope/server_grpc.go b/scope/server_grpc.go
index c5630ce..2b73edc 100644
--- a/scope/server_grpc.go
+++ b/scope/server_grpc.go
@@ -20,6 +20,7 @@ type grpcServer struct {
 	register      chan chan *pb.Frame
 	out           []chan *pb.Frame
 	shutdown      chan struct{}
+	stopped       chan struct{}
 
 	activeAddress net.Addr
 }
@@ -30,6 +31,7 @@ func newGRPCServer(address string, outBufferSize int) (*grpcServer, error) {
 		in:            make(chan *pb.Frame),
 		register:      make(chan chan *pb.Frame),
 		shutdown:      make(chan struct{}),
+		stopped:       make(chan struct{}),
 	}
 
 	localAddress, err := net.ResolveTCPAddr("tcp", address)
@@ -42,8 +44,7 @@ func newGRPCServer(address string, outBufferSize int) (*grpcServer, error) {
 }
 
 func (s *grpcServer) run() {
-	defer close(s.in)
-	defer close(s.register)
+	defer close(s.stopped)
 
 	for {
 		select {
@@ -80,7 +81,11 @@ func (s *grpcServer) sendFrameToStreams(frame *pb.Frame) {
 
 func (s *grpcServer) getFrameStream() chan *pb.Frame {
 	result := make(chan *pb.Frame, s.outBufferSize)
-	s.register <- result
+	select {
+	case s.register <- result:
+	case <-s.stopped:
+		close(result)
+	}
 	return result
 }
 
@@ -137,5 +142,8 @@ func (s *grpcServer) SendFrame(frame *pb.Frame) {
 	if s.server == nil {
 		return
 	}
-	s.in <- frame
+	select {
+	case s.in <- frame:
+	case <-s.stopped:
+	}
 }
-- 
2.43.0


From 229652fa712ee1b28a803e87dba72fa2cea350ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 39/45] fix: starting and stopping the scope server is safe
 while frames arrive

The server was published by a goroutine after Start returned, and used without
the lock: a frame or a Stop at the wrong moment dereferenced a nil server, a
Stop right after Start had no effect, and a failure to listen was not reported.
---
 scope/server.go      | 41 +++++++++++++++++++++---------------
 scope/server_grpc.go | 49 ++++++++++++++++++++++++++++++++++++--------
 2 files changed, 65 insertions(+), 25 deletions(-)

diff --git a/scope/server.go b/scope/server.go
index b65c4c7..23fff03 100644
--- a/scope/server.go
+++ b/scope/server.go
@@ -44,7 +44,10 @@ func (s *ScopeServer) Addr() net.Addr {
 }
 
 func (s *ScopeServer) Start() error {
-	if s.Active() {
+	s.serverLock.Lock()
+	defer s.serverLock.Unlock()
+
+	if s.server != nil {
 		return fmt.Errorf("scope was already started")
 	}
 
@@ -52,17 +55,14 @@ func (s *ScopeServer) Start() error {
 	if err != nil {
 		return err
 	}
+	grpcServer, listener, err := server.listen()
+	if err != nil {
+		return err
+	}
+	s.server = server
 
 	go func() {
-		s.serverLock.Lock()
-		if s.server != nil {
-			s.serverLock.Unlock()
-			return
-		}
-		s.server = server
-		s.serverLock.Unlock()
-
-		err := s.server.Start()
+		err := server.serve(grpcServer, listener)
 		if err != nil {
 			log.Printf("Scope server failed: %v", err)
 		}
@@ -75,16 +75,24 @@ func (s *ScopeServer) Start() error {
 	return nil
 }
 
+func (s *ScopeServer) activeServer() *grpcServer {
+	s.serverLock.Lock()
+	defer s.serverLock.Unlock()
+	return s.server
+}
+
 func (s *ScopeServer) Stop() {
-	if !s.Active() {
+	server := s.activeServer()
+	if server == nil {
 		return
 	}
 
-	s.server.Stop()
+	server.Stop()
 }
 
 func (s *ScopeServer) ShowTimeFrame(timeFrame *TimeFrame) {
-	if !s.Active() {
+	server := s.activeServer()
+	if server == nil {
 		return
 	}
 
@@ -102,11 +110,12 @@ func (s *ScopeServer) ShowTimeFrame(timeFrame *TimeFrame) {
 			TimeFrame: grpcTimeFrame,
 		},
 	}
-	s.server.SendFrame(frame)
+	server.SendFrame(frame)
 }
 
 func (s *ScopeServer) ShowSpectralFrame(spectralFrame *SpectralFrame) {
-	if !s.Active() {
+	server := s.activeServer()
+	if server == nil {
 		return
 	}
 
@@ -134,5 +143,5 @@ func (s *ScopeServer) ShowSpectralFrame(spectralFrame *SpectralFrame) {
 			SpectralFrame: grpcSpectralFrame,
 		},
 	}
-	s.server.SendFrame(frame)
+	server.SendFrame(frame)
 }
diff --git a/scope/server_grpc.go b/scope/server_grpc.go
index 2b73edc..040482a 100644
--- a/scope/server_grpc.go
+++ b/scope/server_grpc.go
@@ -3,6 +3,7 @@ package scope
 import (
 	"fmt"
 	"net"
+	"sync"
 
 	"google.golang.org/grpc"
 
@@ -13,7 +14,6 @@ const defaultOutBufferSize = 10
 
 type grpcServer struct {
 	address *net.TCPAddr
-	server  *grpc.Server
 
 	outBufferSize int
 	in            chan *pb.Frame
@@ -22,6 +22,8 @@ type grpcServer struct {
 	shutdown      chan struct{}
 	stopped       chan struct{}
 
+	lock          sync.Mutex // guards server and activeAddress
+	server        *grpc.Server
 	activeAddress net.Addr
 }
 
@@ -90,34 +92,63 @@ func (s *grpcServer) getFrameStream() chan *pb.Frame {
 }
 
 func (s *grpcServer) Start() error {
+	server, listener, err := s.listen()
+	if err != nil {
+		return err
+	}
+	return s.serve(server, listener)
+}
+
+func (s *grpcServer) listen() (*grpc.Server, net.Listener, error) {
+	s.lock.Lock()
+	defer s.lock.Unlock()
+
 	if s.server != nil {
-		return fmt.Errorf("server already running")
+		return nil, nil, fmt.Errorf("server already running")
 	}
-	s.server = grpc.NewServer()
-	pb.RegisterScopeServer(s.server, s)
 
 	listener, err := net.Listen("tcp", s.address.String())
 	if err != nil {
-		return fmt.Errorf("cannot listen on address %s: %w", s.address, err)
+		return nil, nil, fmt.Errorf("cannot listen on address %s: %w", s.address, err)
 	}
 	s.activeAddress = listener.Addr()
 
+	s.server = grpc.NewServer()
+	pb.RegisterScopeServer(s.server, s)
+
+	return s.server, listener, nil
+}
+
+func (s *grpcServer) serve(server *grpc.Server, listener net.Listener) error {
 	go s.run()
 
-	err = s.server.Serve(listener)
+	err := server.Serve(listener)
+
+	s.lock.Lock()
 	s.server = nil
+	s.lock.Unlock()
+
 	close(s.shutdown)
 	return err
 }
 
+func (s *grpcServer) activeServer() *grpc.Server {
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	return s.server
+}
+
 func (s *grpcServer) Stop() {
-	if s.server == nil {
+	server := s.activeServer()
+	if server == nil {
 		return
 	}
-	s.server.Stop()
+	server.Stop()
 }
 
 func (s *grpcServer) Addr() net.Addr {
+	s.lock.Lock()
+	defer s.lock.Unlock()
 	return s.activeAddress
 }
 
@@ -139,7 +170,7 @@ func (s *grpcServer) GetFrames(_ *pb.GetScopeRequest, stream pb.Scope_GetFramesS
 }
 
 func (s *grpcServer) SendFrame(frame *pb.Frame) {
-	if s.server == nil {
+	if s.activeServer() == nil {
 		return
 	}
 	select {
-- 
2.43.0


From 066346ee64064cea612857d65a2087d53bdf7704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:57 +0000
Subject: [PATCH 40/45] fix: closing the scope client ends the goroutine that
 receives the frames

The goroutine was stuck forever if nobody took the received frames anymore.
---
 scope/client.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/scope/client.go b/scope/client.go
index 8f560c5..242fa74 100644
--- a/scope/client.go
+++ b/scope/client.go
@@ -16,6 +16,8 @@ type Client struct {
 
 	conn   *grpc.ClientConn
 	client pb.ScopeClient
+	ctx    context.Context
+	cancel context.CancelFunc
 }
 
 // NewClient creates a new client for the given address.
@@ -37,6 +39,7 @@ func (c *Client) Open() error {
 	}
 	c.conn = conn
 	c.client = pb.NewScopeClient(conn)
+	c.ctx, c.cancel = context.WithCancel(context.Background())
 
 	return nil
 }
@@ -46,32 +49,42 @@ func (c *Client) Close() error {
 	if c.conn == nil {
 		return nil
 	}
+	c.cancel()
 	return c.conn.Close()
 }
 
 // GetFrames provides a set of channels to receive frames from the scope server.
 func (c *Client) GetFrames() (chan *TimeFrame, chan *SpectralFrame, error) {
-	stream, err := c.client.GetFrames(context.Background(), nil)
+	stream, err := c.client.GetFrames(c.ctx, nil)
 	if err != nil {
 		return nil, nil, fmt.Errorf("cannot open frame stream: %v", err)
 	}
 
 	timeFrames := make(chan *TimeFrame, 1)
 	spectralFrames := make(chan *SpectralFrame, 1)
+	done := c.ctx.Done()
 	go func() {
+		defer close(timeFrames)
+		defer close(spectralFrames)
 		for {
 			frame, err := stream.Recv()
 			if err != nil {
-				close(timeFrames)
-				close(spectralFrames)
 				return
 			}
 
 			switch rawFrame := frame.Frame.(type) {
 			case *pb.Frame_TimeFrame:
-				timeFrames <- readTimeFrame(rawFrame.TimeFrame)
+				select {
+				case timeFrames <- readTimeFrame(rawFrame.TimeFrame):
+				case <-done:
+					return
+				}
 			case *pb.Frame_SpectralFrame:
-				spectralFrames <- readSpectralFrame(rawFrame.SpectralFrame)
+				select {
+				case spectralFrames <- readSpectralFrame(rawFrame.SpectralFrame):
+				case <-done:
+					return
+				}
 			}
 		}
 	}()
-- 
2.43.0


From d68528c7a44184d591c9369640cb725dcae975f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 41/45] fix: settings of the TCI process were lost when they
 were zero and made before the connection

---
 tci/tci.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/tci/tci.go b/tci/tci.go
index e8f4548..af82bf0 100644
--- a/tci/tci.go
+++ b/tci/tci.go
@@ -147,36 +147,28 @@ func (p *Process) SetThreshold(threshold int) {
 	p.settings.Lock()
 	defer p.settings.Unlock()
 	p.threshold = float32(threshold)
-	if p.client.Connected() {
-		p.receiver.SetPeakThreshold(float32(threshold))
-	}
+	p.receiver.SetPeakThreshold(float32(threshold))
 }
 
 func (p *Process) SetSilenceTimeout(timeout time.Duration) {
 	p.settings.Lock()
 	defer p.settings.Unlock()
 	p.silenceTimeout = timeout
-	if p.client.Connected() {
-		p.receiver.SetSilenceTimeout(timeout)
-	}
+	p.receiver.SetSilenceTimeout(timeout)
 }
 
 func (p *Process) SetAttachmentTimeout(timeout time.Duration) {
 	p.settings.Lock()
 	defer p.settings.Unlock()
 	p.attachmentTimeout = timeout
-	if p.client.Connected() {
-		p.receiver.SetAttachmentTimeout(timeout)
-	}
+	p.receiver.SetAttachmentTimeout(timeout)
 }
 
 func (p *Process) SetSignalDebounce(debounce int) {
 	p.settings.Lock()
 	defer p.settings.Unlock()
 	p.signalDebounce = debounce
-	if p.client.Connected() {
-		p.receiver.SetSignalDebounce(debounce)
-	}
+	p.receiver.SetSignalDebounce(debounce)
 }
 
 func (p *Process) onConnected(connected bool) {
-- 
2.43.0


From fe682bf7d732d4a05e7e966ca9838ed939ef5b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:54 +0000
Subject: [PATCH 42/45] fix: accept an IPv6 address without brackets as host

---
 cli/cli.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/cli.go b/cli/cli.go
index 8694042..f87e97b 100644
--- a/cli/cli.go
+++ b/cli/cli.go
@@ -23,6 +23,10 @@ func ParseTCPAddrArg(arg string, defaultHost string, defaultPort int) (*net.TCPA
 func splitHostPort(hostport string) (host, port string) {
 	host = hostport
 
+	if strings.Count(host, ":") > 1 && !strings.HasPrefix(host, "[") {
+		return // an IPv6 address without brackets and without port
+	}
+
 	colon := strings.LastIndexByte(host, ':')
 	if colon != -1 && validOptionalPort(host[colon:]) {
 		host, port = host[:colon], host[colon+1:]
-- 
2.43.0


From 1e2ba44d1bcd69b8ddae24b792143ab376174815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 43/45] fix: keep the zone of an IPv6 KiwiSDR host

---
 kiwi/client.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kiwi/client.go b/kiwi/client.go
index 92e9699..0005494 100644
--- a/kiwi/client.go
+++ b/kiwi/client.go
@@ -170,9 +170,10 @@ func newClient(host string, keepalive bool, kiwiHandler KiwiHandler) (*Client, e
 }
 
 func (c *Client) connect() (clientConn, error) {
-	hostUrl, err := url.Parse(fmt.Sprintf("ws://%s/%d/SND", net.JoinHostPort(c.host.IP.String(), strconv.Itoa(c.host.Port)), nextClientNumber()))
-	if err != nil {
-		return nil, fmt.Errorf("cannot build KiwiSDR URL: %v", err)
+	hostUrl := url.URL{
+		Scheme: "ws",
+		Host:   c.host.String(),
+		Path:   fmt.Sprintf("/%d/SND", nextClientNumber()),
 	}
 
 	conn, _, err := websocket.DefaultDialer.Dial(hostUrl.String(), nil)
-- 
2.43.0


From cbf3d89bb26940e1de168fda3348ee47e72d8e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:49 +0000
Subject: [PATCH 44/45] fix: an invalid mark without symbols does not spoil the
 next character

---
 cw/decode.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cw/decode.go b/cw/decode.go
index 273da9c..bcfb81b 100644
--- a/cw/decode.go
+++ b/cw/decode.go
@@ -317,6 +317,7 @@ func (d *Decoder) appendSymbol(s cw.Symbol) {
 func (d *Decoder) decodeCurrentChar() {
 	if d.currentChar.empty() {
 		// fmt.Print("X") // TODO REMOVE THIS
+		d.currentCharInvalid = false
 		return
 	}
 	if d.currentCharInvalid {
-- 
2.43.0


From 9bb18838f72d895344413c88b3916f1c4b4f8634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:38 +0000
Subject: [PATCH 45/45] fix: an IF range wider than the sample rate crashes the
 receiver

The edge width becomes negative when the TCI server announces IF limits
(or the user a KiwiSDR bandwidth) beyond the sample rate, and the search
for the noise floor then indexes outside of the spectrum.
---
 dsp/fft.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsp/fft.go b/dsp/fft.go
index 377e0f6..7deca7f 100644
--- a/dsp/fft.go
+++ b/dsp/fft.go
@@ -213,6 +213,8 @@ func (p Peak[T, F]) ContainsBin(bin int) bool {
 }
 
 func FindNoiseFloor[T Number](psd Block[T], edgeWidth int) (T, float64) {
+	// a bandwidth wider than the sample rate leaves no edges
+	edgeWidth = max(0, edgeWidth)
 	windowSize := (len(psd) - 2*edgeWidth) / 10
 	minValue := float64(psd[0])
 	var sum float64
-- 
2.43.0

