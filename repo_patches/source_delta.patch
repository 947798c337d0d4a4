From 75fcd84997f81f02a0d522cd7009329e43deea4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:03 +0000
Subject: [PATCH 01/24] fix: Map.Clear replaces the read map atomically

Clear overwrote the atomic.Value while lock-free readers load it, a data race.
---
 xsync/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsync/map.go b/xsync/map.go
index eedd84f..08431af 100644
--- a/xsync/map.go
+++ b/xsync/map.go
@@ -417,7 +417,7 @@ func (m *Map) Delete(key interface{}) {
 // Clear clears all elements.
 func (m *Map) Clear() {
 	m.mu.Lock()
-	m.read = atomic.Value{}
+	m.read.Store(readOnly{})
 	m.dirty = nil
 	m.misses = 0
 	m.mu.Unlock()
-- 
2.43.0


From 9941a81e12963372b06b696f16b03b25e56161b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 02/24] fix: Map.ComputeIfPresent computes again when the value
 changed

After a failed swap the result computed from the old value was stored over
the new one, losing a concurrent update.
---
 xsync/map.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xsync/map.go b/xsync/map.go
index 08431af..4f636f4 100644
--- a/xsync/map.go
+++ b/xsync/map.go
@@ -364,10 +364,11 @@ func (e *entry) tryComputeIfPresent(key interface{}, computeFunc func(key, value
 	if p == nil {
 		return nil, false, true
 	}
-	i := computeFunc(key, *(*interface{})(p))
-	ic := i
 
 	for {
+		// Compute from the value the swap below replaces.
+		i := computeFunc(key, *(*interface{})(p))
+		ic := i
 		if atomic.CompareAndSwapPointer(&e.p, p, unsafe.Pointer(&ic)) {
 			return i, true, true
 		}
-- 
2.43.0


From a8dfa281c5bef3a3a1d620ad2915d269e7da9614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:45 +0000
Subject: [PATCH 03/24] fix: refuse a negative or too large shard count when
 the SharedMap is made

The conversion to uint32 turned a negative count into a huge one, which
rounded up to zero shards: construction succeeded and every use panicked.
---
 xsync/shared_map.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xsync/shared_map.go b/xsync/shared_map.go
index 631df56..015c0c4 100644
--- a/xsync/shared_map.go
+++ b/xsync/shared_map.go
@@ -35,6 +35,10 @@ type (
 
 // WithShardBlockSize returns a configuration that sets the size of the number of segments.
 func WithShardBlockSize(shardBlockSize int) SharedMapOption {
+	if shardBlockSize < 0 || int64(shardBlockSize) > 1<<31 {
+		// Not representable: NewSharedMap refuses zero.
+		shardBlockSize = 0
+	}
 	return func(sharedMapOptions *sharedMapOptions) {
 		sharedMapOptions.shardBlockSize = uint32(shardBlockSize)
 	}
-- 
2.43.0


From 45bd11c1941968b2d55cb1057a1ea94e30eba7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 04/24] fix: ResourceManager.Get does not return a resource
 removed before the call

A Get that joined the end of another Get's flight received that flight's
resource even if Remove had returned in between.
---
 xsync/resourcemanager.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/xsync/resourcemanager.go b/xsync/resourcemanager.go
index fecea48..c0718f6 100644
--- a/xsync/resourcemanager.go
+++ b/xsync/resourcemanager.go
@@ -20,6 +20,7 @@ import (
 	"github.com/chenquan/go-pkg/xerror"
 	"golang.org/x/sync/singleflight"
 	"io"
+	"runtime"
 	"sync"
 )
 
@@ -54,7 +55,9 @@ func (m *ResourceManager) Close() error {
 
 // Get returns the resource associated with given key.
 func (m *ResourceManager) Get(key string, create func() (io.Closer, error)) (io.Closer, error) {
+	own := false
 	val, err, _ := m.singleFlight.Do(key, func() (interface{}, error) {
+		own = true
 
 		m.rw.RLock()
 		resource, ok := m.resources[key]
@@ -78,6 +81,19 @@ func (m *ResourceManager) Get(key string, create func() (io.Closer, error)) (io.
 		return nil, err
 	}
 
+	if !own {
+		// Another Get obtained the result. The resource may have been removed since,
+		// even before this call began: then get it anew.
+		m.rw.RLock()
+		resource, ok := m.resources[key]
+		m.rw.RUnlock()
+		if !ok {
+			runtime.Gosched()
+			return m.Get(key, create)
+		}
+		return resource, nil
+	}
+
 	return val.(io.Closer), nil
 }
 
-- 
2.43.0


From bee8880988c445fc82ee6bb5f85564972a61d665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:26 +0000
Subject: [PATCH 05/24] fix: GetBufferReaderSize and GetBufferWriterSize honour
 the size

A recycled object with a smaller buffer was returned whatever size was asked for.
---
 xio/buffer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xio/buffer.go b/xio/buffer.go
index 13a6b34..f7343e4 100644
--- a/xio/buffer.go
+++ b/xio/buffer.go
@@ -29,7 +29,7 @@ var (
 
 // GetBufferReaderSize returns a bufio.Reader.
 func GetBufferReaderSize(r io.Reader, size int) *bufio.Reader {
-	if v := bufReaderPool.Get(); v != nil {
+	if v := bufReaderPool.Get(); v != nil && v.(*bufio.Reader).Size() >= size {
 		br := v.(*bufio.Reader)
 		br.Reset(r)
 		return br
@@ -57,7 +57,7 @@ func PutBufferReader(r *bufio.Reader) {
 
 // GetBufferWriterSize returns a bufio.Writer.
 func GetBufferWriterSize(w io.Writer, size int) *bufio.Writer {
-	if v := bufWriterPool.Get(); v != nil {
+	if v := bufWriterPool.Get(); v != nil && v.(*bufio.Writer).Size() >= size {
 		bw := v.(*bufio.Writer)
 		bw.Reset(w)
 		return bw
-- 
2.43.0


From 29ab85460a9eb5c513a5cc9e4e360e56d7118ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:52 +0000
Subject: [PATCH 06/24] fix: Value.Write takes values of any type

Writing nil, or a value of another type than the first, panicked instead of
succeeding or reporting failure.
---
 xonce/value.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/xonce/value.go b/xonce/value.go
index d7357f1..7fd9b2f 100644
--- a/xonce/value.go
+++ b/xonce/value.go
@@ -25,6 +25,11 @@ type Value struct {
 	v atomic.Value
 }
 
+// written wraps a written value: an atomic.Value takes neither nil nor values of different types.
+type written struct {
+	v interface{}
+}
+
 // NewValue returns a Value.
 func NewValue() *Value {
 	return &Value{}
@@ -32,10 +37,13 @@ func NewValue() *Value {
 
 // Write writes a v.
 func (val *Value) Write(v interface{}) (success bool) {
-	return val.v.CompareAndSwap(nil, v)
+	return val.v.CompareAndSwap(nil, &written{v})
 }
 
 // Value return a v.
 func (val *Value) Value() interface{} {
-	return val.v.Load()
+	if w, ok := val.v.Load().(*written); ok {
+		return w.v
+	}
+	return nil
 }
-- 
2.43.0


From 2e9b3006eaa0dfde9d0874fb293310895ccee654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:08 +0000
Subject: [PATCH 07/24] fix: a blocked barrier Read or Write ends when its
 context is cancelled

The context was only checked before the channel operation, so that an operation
blocked on the channel stayed blocked for ever.
---
 xbarrier/readbarrier.go  | 8 +++++++-
 xbarrier/writebarrier.go | 7 ++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/xbarrier/readbarrier.go b/xbarrier/readbarrier.go
index 3cbaa7c..d221e6b 100644
--- a/xbarrier/readbarrier.go
+++ b/xbarrier/readbarrier.go
@@ -41,6 +41,12 @@ func (r *ReadBarrier) Read() (val interface{}, success bool) {
 	case <-r.ctx.Done():
 		return nil, false
 	default:
-		return <-r.readChannel, true
+	}
+
+	select {
+	case <-r.ctx.Done():
+		return nil, false
+	case val = <-r.readChannel:
+		return val, true
 	}
 }
diff --git a/xbarrier/writebarrier.go b/xbarrier/writebarrier.go
index d5f7d0d..911d9e7 100644
--- a/xbarrier/writebarrier.go
+++ b/xbarrier/writebarrier.go
@@ -46,7 +46,12 @@ func (w *WriteBarrier) Write(v interface{}) (success bool) {
 	case <-w.ctx.Done():
 		return
 	default:
-		w.writeChannel <- v
+	}
+
+	select {
+	case <-w.ctx.Done():
+		return
+	case w.writeChannel <- v:
 		return true
 	}
 }
-- 
2.43.0


From cd9cb74ef22b3ac200edd00e959efda1b4262a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:05 +0000
Subject: [PATCH 08/24] fix: map calls still running after a cancellation do
 not write to the closed output

The output was closed while abandoned map calls could still be inside Write: the
send on the closed channel panicked.
---
 xmapreduce/xmapreduce.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/xmapreduce/xmapreduce.go b/xmapreduce/xmapreduce.go
index 7cf6d5d..5ef67f7 100644
--- a/xmapreduce/xmapreduce.go
+++ b/xmapreduce/xmapreduce.go
@@ -60,6 +60,20 @@ func loadOption(opts ...Option) *options {
 	return opt
 }
 
+// collectWriter is a writer that fails once the collector is closed.
+type collectWriter struct {
+	xbarrier.Writer
+	rw     sync.RWMutex
+	closed bool
+}
+
+// Write writes v unless the collector is closed.
+func (w *collectWriter) Write(v interface{}) (success bool) {
+	w.rw.RLock()
+	defer w.rw.RUnlock()
+	return !w.closed && w.Writer.Write(v)
+}
+
 // Map maps all elements generated from given generate func, and returns an output channel.
 func Map(ctx context.Context, generateFunc GenerateFunc, mapFunc MapFunc, opts ...Option) <-chan interface{} {
 	option := loadOption(opts...)
@@ -89,13 +103,17 @@ func buildSource(generateFunc GenerateFunc) chan interface{} {
 
 func doMap(ctx context.Context, mapFunc MapFunc, source <-chan interface{}, collector chan<- interface{}, option *options) {
 	waitGroup := sync.WaitGroup{}
+	writer := &collectWriter{Writer: xbarrier.NewWriteBarrier(ctx, collector)}
 
 	defer func() {
 		waitGroup.Wait()
+		// After a cancellation some map calls may still be running.
+		writer.rw.Lock()
+		writer.closed = true
+		writer.rw.Unlock()
 		close(collector)
 	}()
 	worker := xworker.NewWorker(option.workerSize)
-	writer := xbarrier.NewWriteBarrier(ctx, collector)
 
 	for {
 		select {
-- 
2.43.0


From f255cdafb36a0f7f810d21953aa547632062722f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 09/24] fix: xbinary fixed-size reads use io.ReadFull

A reader may deliver fewer bytes than asked for, none, or bytes together
with EOF; the numbers then failed and ReadBool returned false for no byte.
---
 xbinary/xbinary.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xbinary/xbinary.go b/xbinary/xbinary.go
index 4d6b273..cb5885e 100644
--- a/xbinary/xbinary.go
+++ b/xbinary/xbinary.go
@@ -45,8 +45,8 @@ func ReadUint16(r io.Reader) (uint16, error) {
 	data := xbytes.MallocSize(2)
 	defer xbytes.Free(data)
 
-	n, err := r.Read(data)
-	if err != nil {
+	n, err := io.ReadFull(r, data)
+	if err != nil && err != io.ErrUnexpectedEOF {
 		return 0, err
 	}
 	if n < 2 {
@@ -76,7 +76,7 @@ func ReadBool(r io.Reader) (bool, error) {
 	b := xbytes.MallocSize(1)
 	defer xbytes.Free(b)
 
-	_, err := r.Read(b)
+	_, err := io.ReadFull(r, b)
 	if err != nil {
 		return false, err
 	}
@@ -90,8 +90,8 @@ func ReadUint32(r io.Reader) (uint32, error) {
 	data := xbytes.MallocSize(4)
 	defer xbytes.Free(data)
 
-	n, err := r.Read(data)
-	if err != nil {
+	n, err := io.ReadFull(r, data)
+	if err != nil && err != io.ErrUnexpectedEOF {
 		return 0, err
 	}
 	if n < 4 {
-- 
2.43.0


From 3ba85a90f8960dbcd9d4f1cd32415ad2abe0430d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 10/24] fix: xbinary.ReadBytes reports a missing payload as
 unexpected EOF

---
 xbinary/xbinary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xbinary/xbinary.go b/xbinary/xbinary.go
index cb5885e..35e94ec 100644
--- a/xbinary/xbinary.go
+++ b/xbinary/xbinary.go
@@ -139,6 +139,10 @@ func ReadBytes(r io.Reader) (b []byte, err error) {
 	}
 	payload := xbytes.MallocSize(int(length))
 	_, err = io.ReadFull(r, payload)
+	if err == io.EOF {
+		// the length was there, so this is not the end between two values.
+		err = io.ErrUnexpectedEOF
+	}
 	if err != nil {
 		xbytes.Free(payload)
 		return nil, err
-- 
2.43.0


From a40a5fe549b58fd7e8243d4c706379d056ff912b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 11/24] fix: xbinary.WriteBytes refuses what its 16-bit length
 cannot hold

---
 xbinary/xbinary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xbinary/xbinary.go b/xbinary/xbinary.go
index 35e94ec..b238980 100644
--- a/xbinary/xbinary.go
+++ b/xbinary/xbinary.go
@@ -21,6 +21,7 @@ import (
 	"errors"
 	"github.com/chenquan/go-pkg/xbytes"
 	"io"
+	"math"
 )
 
 var (
@@ -119,6 +120,9 @@ func WriteUint32(w io.Writer, i uint32) error {
 
 // WriteBytes writes bytes.
 func WriteBytes(w io.Writer, s []byte) (err error) {
+	if len(s) > math.MaxUint16 {
+		return ErrInvalidLength
+	}
 	// length
 	err = WriteUint16(w, uint16(len(s)))
 	if err == nil {
-- 
2.43.0


From 0b9da020aad12965cb14b63d5ffad3bff469d767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 12/24] fix: xstring.Rotate counts characters, not bytes

---
 xstring/xstring.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index 8ead1e3..1f3f6ec 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -177,7 +177,7 @@ func Rotate(s string, shift int) string {
 		return s
 	}
 
-	sLen := len(s)
+	sLen := Len(s)
 	if sLen == 0 {
 		return s
 	}
@@ -189,7 +189,7 @@ func Rotate(s string, shift int) string {
 
 	offset := -(shiftMod)
 	sb := strings.Builder{}
-	sb.Grow(sLen)
+	sb.Grow(len(s))
 	_, _ = sb.WriteString(Right(s, offset))
 	_, _ = sb.WriteString(Left(s, offset))
 
-- 
2.43.0


From 918d3d6c85d3930da2845f9cc3ac695726c80872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 13/24] fix: xstring.Reverse accepts the character U+FFFD

---
 xstring/xstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index 1f3f6ec..5c489ce 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -286,7 +286,7 @@ func Reverse(s string) (string, error) {
 	for srcIndex > 0 {
 		r, n := utf8.DecodeLastRune(src[:srcIndex])
 
-		if r == utf8.RuneError {
+		if r == utf8.RuneError && n <= 1 {
 			return hack.BytesToString(dst), ErrDecodeChar
 		}
 
-- 
2.43.0


From 0c2b780714b3a8852c0dc96223b76c437dcf3016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 14/24] fix: xstring.DeleteWhitespace compares bytes with bytes

---
 xstring/xstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index 5c489ce..e918e54 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -701,7 +701,7 @@ func DeleteWhitespace(str string) string {
 		}
 	}
 
-	if builder.Len() == strLen {
+	if builder.Len() == len(str) {
 		return str
 	}
 
-- 
2.43.0


From 2c4d88842c2bf9a1aae0ce466297286f5b275d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 15/24] fix: xstring.EqualsIgnoreCase does not take a prefix
 for equal

---
 xstring/xstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index e918e54..9ae99cc 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -759,7 +759,7 @@ func EqualsIgnoreCase(str1, str2 string) bool {
 		return true
 	}
 
-	return RegionMatches(str1, true, 0, str2, 0, Len(str1))
+	return Len(str1) == Len(str2) && RegionMatches(str1, true, 0, str2, 0, Len(str1))
 }
 
 // EqualsAny returns ture if str exists in strings.
-- 
2.43.0


From 23f8da075b5311f4f6bf264be47b66105c12131d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 16/24] fix: xstring.IsNumerical accepts only a point between
 the digits

---
 xstring/xstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index 9ae99cc..b3ecde9 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -493,7 +493,7 @@ func Contains(s string, searchChar string) bool {
 
 // IsNumerical returns ture if a numerical.
 func IsNumerical(s string) bool {
-	reg, _ := regexp.Compile(`^\d+.?\d*$`)
+	reg, _ := regexp.Compile(`^\d+\.?\d*$`)
 	return reg.MatchString(s)
 }
 
-- 
2.43.0


From 6297ea7531a9eff97cd469b462b387ddbf18a0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:56 +0000
Subject: [PATCH 17/24] fix: xstring.Abbreviate keeps the text at the offset

With an offset the result was cut from the start of the string, so it
repeated text, left out the character at the offset or was too short.
---
 xstring/xstring.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index b3ecde9..b1453ea 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -798,21 +798,21 @@ func Abbreviate(str, abbrevMarker string, offset, maxWidth int) (string, error)
 		offset = strLen
 	}
 	if strLen-offset < maxWidth-abbrevMarkerLen {
-		offset = strLen - (maxWidth - abbrevMarkerLen)
+		return abbrevMarker + Sub(str, strLen-(maxWidth-abbrevMarkerLen), strLen), nil
 	}
-	if offset <= abbrevMarkerLen+1 {
+	if offset <= abbrevMarkerLen+1 && offset < maxWidth-abbrevMarkerLen {
 		return Sub(str, 0, maxWidth-abbrevMarkerLen) + abbrevMarker, nil
 	}
 	if maxWidth < minAbbrevWidthOffset {
 		return empty, fmt.Errorf("minimum abbreviation width with offset is %d", minAbbrevWidthOffset)
 	}
 	if offset+maxWidth-abbrevMarkerLen < strLen {
-		substr, err := Abbreviate(Sub(str, 0, offset), abbrevMarker, 0, maxWidth-abbrevMarkerLen)
+		substr, err := Abbreviate(Sub(str, offset, strLen), abbrevMarker, 0, maxWidth-abbrevMarkerLen)
 		if err == nil {
 			return abbrevMarker + substr, nil
 		}
 		return empty, err
 	}
 
-	return abbrevMarker + Sub(str, 0, strLen-(maxWidth-abbrevMarkerLen)), nil
+	return abbrevMarker + Sub(str, strLen-(maxWidth-abbrevMarkerLen), strLen), nil
 }
-- 
2.43.0


From 7eea147dc613964f8f56f714d239031bf48a5ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 18/24] fix: xstring.Joiner writes no step before the first
 piece after Grow or Reset

---
 xstring/stringjoiner.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xstring/stringjoiner.go b/xstring/stringjoiner.go
index 3b8edb0..1b5784b 100644
--- a/xstring/stringjoiner.go
+++ b/xstring/stringjoiner.go
@@ -24,6 +24,8 @@ type (
 		b    *strings.Builder
 		opts *joinerOptions
 		n    int // n is length of prefix and suffix for
+		// wrote is true once a piece was written since the last Reset.
+		wrote bool
 	}
 	// joinerOptions a option.
 	joinerOptions struct {
@@ -132,9 +134,10 @@ func (j *Joiner) String() string {
 func (j *Joiner) tryWriteStep() {
 	if j.b == nil {
 		j.b = &strings.Builder{}
-	} else {
+	} else if j.wrote {
 		j.b.WriteString(j.opts.step)
 	}
+	j.wrote = true
 }
 
 // Grow grows b's capacity, if necessary, to guarantee space for
@@ -164,6 +167,7 @@ func (j *Joiner) Reset() {
 	if j.b != nil {
 		j.b.Reset()
 	}
+	j.wrote = false
 }
 
 // Len returns the len of accumulated string.
-- 
2.43.0


From 214d2be310dc877cd934ad2c13a614a9c3760b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 19/24] fix: xmath compares integers as integers

---
 xmath/xmath.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/xmath/xmath.go b/xmath/xmath.go
index 2174ab1..52b6086 100644
--- a/xmath/xmath.go
+++ b/xmath/xmath.go
@@ -20,22 +20,34 @@ import "math"
 
 // MaxInt returns the maximum value.
 func MaxInt(a, b int) int {
-	return int(math.Max(float64(a), float64(b)))
+	if a > b {
+		return a
+	}
+	return b
 }
 
 // MinInt returns minimum value.
 func MinInt(a, b int) int {
-	return int(math.Min(float64(a), float64(b)))
+	if a < b {
+		return a
+	}
+	return b
 }
 
 // MaxInt64 returns the maximum value.
 func MaxInt64(a, b int64) int64 {
-	return int64(math.Max(float64(a), float64(b)))
+	if a > b {
+		return a
+	}
+	return b
 }
 
 // MinInt64 returns minimum value.
 func MinInt64(a, b int64) int64 {
-	return int64(math.Min(float64(a), float64(b)))
+	if a < b {
+		return a
+	}
+	return b
 }
 
 // MaxFloat64 returns the maximum value.
-- 
2.43.0


From 3daf6ba008aa1219436e60e4a9343a744abae8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:03 +0000
Subject: [PATCH 20/24] fix: Tail of more elements than fit in memory delivers
 them

---
 xstream/ring.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/xstream/ring.go b/xstream/ring.go
index 9359931..e6ff2b5 100644
--- a/xstream/ring.go
+++ b/xstream/ring.go
@@ -18,18 +18,23 @@ package xstream
 
 type ring struct {
 	elements []interface{}
+	size     uint
 	index    int
 }
 
 // newRing returns a ring object with the given size n.
 func newRing(n uint) *ring {
-	return &ring{elements: make([]interface{}, n)}
+	return &ring{size: n}
 }
 
 // add adds v into r.
 func (r *ring) add(v interface{}) {
-
-	r.elements[r.index%len(r.elements)] = v
+	// grow up to the size, which may be far more than there are items
+	if uint(len(r.elements)) < r.size {
+		r.elements = append(r.elements, v)
+	} else {
+		r.elements[r.index%len(r.elements)] = v
+	}
 	r.index++
 }
 
-- 
2.43.0


From 8bce77a541a0063d1a6d1af235200f8d2ea7d32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:41 +0000
Subject: [PATCH 21/24] fix: a pooled buffer over a bufio reader or writer is a
 buffer of its own

---
 xio/buffer.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/xio/buffer.go b/xio/buffer.go
index f7343e4..3d0cf94 100644
--- a/xio/buffer.go
+++ b/xio/buffer.go
@@ -34,7 +34,10 @@ func GetBufferReaderSize(r io.Reader, size int) *bufio.Reader {
 		br.Reset(r)
 		return br
 	}
-	return bufio.NewReaderSize(r, size)
+	// Made for r, it would be r itself if that is a bufio one.
+	br := bufio.NewReaderSize(nil, size)
+	br.Reset(r)
+	return br
 }
 
 // GetBufferReader returns a bufio.Reader.
@@ -44,7 +47,10 @@ func GetBufferReader(r io.Reader) *bufio.Reader {
 		br.Reset(r)
 		return br
 	}
-	return bufio.NewReader(r)
+	// Made for r, it would be r itself if that is a bufio one.
+	br := bufio.NewReader(nil)
+	br.Reset(r)
+	return br
 }
 
 // PutBufferReader recycles a bufio.Reader.
@@ -62,7 +68,10 @@ func GetBufferWriterSize(w io.Writer, size int) *bufio.Writer {
 		bw.Reset(w)
 		return bw
 	}
-	return bufio.NewWriterSize(w, size)
+	// Made for w, it would be w itself if that is a bufio one.
+	bw := bufio.NewWriterSize(nil, size)
+	bw.Reset(w)
+	return bw
 }
 
 // GetBufferWriter returns a bufio.Writer.
@@ -72,7 +81,10 @@ func GetBufferWriter(w io.Writer) *bufio.Writer {
 		bw.Reset(w)
 		return bw
 	}
-	return bufio.NewWriter(w)
+	// Made for w, it would be w itself if that is a bufio one.
+	bw := bufio.NewWriter(nil)
+	bw.Reset(w)
+	return bw
 }
 
 // PutBufferWriter recycles a bufio.Writer.
-- 
2.43.0


From 101dedeff152c16711294d2b49cb49ae2c3e82f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:42 +0000
Subject: [PATCH 22/24] fix: a compute function that panics leaves the map
 unlocked

---
 xsync/map.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsync/map.go b/xsync/map.go
index 4f636f4..f3dc3a0 100644
--- a/xsync/map.go
+++ b/xsync/map.go
@@ -275,6 +275,7 @@ func (m *Map) ComputeIfAbsent(key interface{}, computeFunc func(key interface{})
 		}
 	}
 	m.mu.Lock()
+	defer m.mu.Unlock() // computeFunc may panic
 	read, _ = m.read.Load().(readOnly)
 	if e, ok := read.m[key]; ok {
 		if e.unexpungeLocked() {
@@ -295,7 +296,6 @@ func (m *Map) ComputeIfAbsent(key interface{}, computeFunc func(key interface{})
 		m.dirty[key] = newEntry(value)
 		actual, loaded = value, false
 	}
-	m.mu.Unlock()
 	return actual, loaded
 }
 
@@ -340,6 +340,7 @@ func (m *Map) ComputeIfPresent(key interface{}, computeFunc func(key, value inte
 		}
 	}
 	m.mu.Lock()
+	defer m.mu.Unlock() // computeFunc may panic
 	read, _ = m.read.Load().(readOnly)
 	if e, ok := read.m[key]; ok {
 		if e.unexpungeLocked() {
@@ -352,7 +353,6 @@ func (m *Map) ComputeIfPresent(key interface{}, computeFunc func(key, value inte
 	} else {
 		actual, exist = nil, false
 	}
-	m.mu.Unlock()
 	return actual, exist
 }
 
-- 
2.43.0


From f046858bb3ff18398fba1dbb33f39801ad4c1a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:13 +0000
Subject: [PATCH 23/24] fix: a work size larger than memory no longer panics,
 results wait in a bounded buffer

---
 xmapreduce/xmapreduce.go | 6 +++++-
 xstream/xstream.go       | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/xmapreduce/xmapreduce.go b/xmapreduce/xmapreduce.go
index 5ef67f7..d24e787 100644
--- a/xmapreduce/xmapreduce.go
+++ b/xmapreduce/xmapreduce.go
@@ -19,11 +19,15 @@ package xmapreduce
 import (
 	"context"
 	"github.com/chenquan/go-pkg/xbarrier"
+	"github.com/chenquan/go-pkg/xmath"
 	"github.com/chenquan/go-pkg/xstream"
 	"github.com/chenquan/go-pkg/xworker"
 	"sync"
 )
 
+// maxBuffer bounds the results that wait to be received, however large the worker size.
+const maxBuffer = 1024
+
 type (
 	// GenerateFunc is used to let callers send elements into source.
 	GenerateFunc func(source chan<- interface{})
@@ -79,7 +83,7 @@ func Map(ctx context.Context, generateFunc GenerateFunc, mapFunc MapFunc, opts .
 	option := loadOption(opts...)
 	source := buildSource(generateFunc)
 
-	collector := make(chan interface{}, option.workerSize)
+	collector := make(chan interface{}, xmath.MinInt(option.workerSize, maxBuffer))
 	go doMap(ctx, mapFunc, source, collector, option)
 
 	return collector
diff --git a/xstream/xstream.go b/xstream/xstream.go
index dbcda1a..78401e8 100644
--- a/xstream/xstream.go
+++ b/xstream/xstream.go
@@ -20,11 +20,15 @@ package xstream
 
 import (
 	"errors"
+	"github.com/chenquan/go-pkg/xmath"
 	"github.com/panjf2000/ants/v2"
 	"sort"
 	"sync"
 )
 
+// maxBuffer bounds the results buffered between two stages, however large the work size.
+const maxBuffer = 1024
+
 var (
 	// empty an empty Stream.
 	empty *Stream
@@ -407,7 +411,7 @@ func (s *Stream) Filter(fn FilterFunc, opts ...Option) *Stream {
 // one or more items base on the given item.
 func (s *Stream) Walk(f WalkFunc, opts ...Option) *Stream {
 	option := loadOptions(opts...)
-	pipe := make(chan interface{}, option.workSize)
+	pipe := make(chan interface{}, xmath.MinInt(option.workSize, maxBuffer))
 	startGoroutine(func() {
 		var wg sync.WaitGroup
 		pool := make(chan struct{}, option.workSize)
-- 
2.43.0


From 406d7e7136b5ef1b5a71452dc4765f5fcc4a363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:34 +0000
Subject: [PATCH 24/24] fix: SplitSteam of chunks larger than fit in memory
 delivers what there is

---
 xstream/xstream.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/xstream/xstream.go b/xstream/xstream.go
index 78401e8..74d4d0d 100644
--- a/xstream/xstream.go
+++ b/xstream/xstream.go
@@ -221,20 +221,25 @@ func (s *Stream) SplitSteam(n int) *Stream {
 	}
 	source := make(chan interface{})
 	startGoroutine(func() {
-		var chunkSource = make(chan interface{}, n)
+		var chunk []interface{}
+		// sends chunk as a Stream of its own
+		send := func() {
+			chunkSource := make(chan interface{}, len(chunk))
+			for _, item := range chunk {
+				chunkSource <- item
+			}
+			close(chunkSource)
+			source <- Range(chunkSource)
+			chunk = nil
+		}
 		for item := range s.source {
-			chunkSource <- item
-			if len(chunkSource) == n {
-
-				source <- Range(chunkSource)
-				close(chunkSource)
-
-				chunkSource = make(chan interface{}, n)
+			chunk = append(chunk, item)
+			if len(chunk) == n {
+				send()
 			}
 		}
-		if len(chunkSource) != 0 {
-			source <- Range(chunkSource)
-			close(chunkSource)
+		if len(chunk) != 0 {
+			send()
 		}
 		close(source)
 	})
-- 
2.43.0

