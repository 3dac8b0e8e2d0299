From 6e224f9a812e068b6e378f8fef31387bfca9c4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:23 +0000
Subject: [PATCH 01/64] fix: LRU hit must refresh the age of the entry in the
 heap, not of a copy

---
 utils/caches/lru.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/caches/lru.go b/utils/caches/lru.go
index dd3e596..fe7fba0 100644
--- a/utils/caches/lru.go
+++ b/utils/caches/lru.go
@@ -65,7 +65,7 @@ func (this *LRU[K, V]) Get(c ctx.C, k K) (V, HitMiss, error) {
 	i, exists := this.heap.index[k]
 	if exists {
 		entry := this.heap.list[i]
-		entry.last = time.Now()
+		this.heap.list[i].last = time.Now() // entry is a copy, we must update the one in the heap
 		heap.Fix(this.heap, i)
 		return entry.val, HIT, nil
 	}
-- 
2.43.0


From 76d5b8efd8aeb4c4e35d8e620e2cf78916882648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:23 +0000
Subject: [PATCH 02/64] fix: RequestCache must not load again what another
 caller just loaded

---
 utils/caches/request.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/caches/request.go b/utils/caches/request.go
index 227c5c3..65bb922 100644
--- a/utils/caches/request.go
+++ b/utils/caches/request.go
@@ -44,8 +44,8 @@ func (this *RequestCache[K, V]) Request(c ctx.C, key K) (V, HitMiss, error) {
 	defer e.m.Unlock()
 
 	//log.Debugf(c, "ReqCache[%v] %v expired %v ago", key, hit, time.Since(e.expire))
-	// not a miss, and not expired
-	if hit != MISS && time.Until(e.expire) >= 0 {
+	// loaded (maybe by someone else while we were waiting for the lock) and not expired; a new entry looks expired
+	if time.Until(e.expire) >= 0 {
 		if e.err != nil {
 			return e.V, HIT, e.err
 		} else {
-- 
2.43.0


From 025cdd25c5d8102aec4c7288dcfd34a40b3a31dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:25 +0000
Subject: [PATCH 03/64] fix: sync.Map must not panic while ranging over nil
 values or keys

---
 utils/sync/map.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/utils/sync/map.go b/utils/sync/map.go
index 8ec73ce..5104a42 100644
--- a/utils/sync/map.go
+++ b/utils/sync/map.go
@@ -91,7 +91,10 @@ func (this *Map[K, V]) Store(key K, val V) {
 
 func (this *Map[K, V]) Range(f func(key K, val V) bool) {
 	this.m.Range(func(key, val any) bool {
-		return f(key.(K), val.(V))
+		// nil is a valid value for an interface, but can't be asserted
+		k, _ := key.(K)
+		v, _ := val.(V)
+		return f(k, v)
 	})
 }
 
@@ -99,7 +102,10 @@ func (this *Map[K, V]) Range(f func(key K, val V) bool) {
 func (this *Map[K, V]) RangeErr(f func(key K, val V) error) error {
 	var err error
 	this.m.Range(func(key, val any) bool {
-		err = f(key.(K), val.(V))
+		// nil is a valid value for an interface, but can't be asserted
+		k, _ := key.(K)
+		v, _ := val.(V)
+		err = f(k, v)
 		return err == nil
 	})
 	return err
-- 
2.43.0


From ec40600afc02d1ce525c80acbb0ff9fa01dc4cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:13 +0000
Subject: [PATCH 04/64] fix: ReadAll must keep data returned together with an
 error, and not race with its reader on cancel

---
 utils/io.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utils/io.go b/utils/io.go
index c822cb1..ee96446 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -3,6 +3,7 @@ package utils
 import (
 	"bytes"
 	"io"
+	"sync"
 
 	"github.com/Aize-Public/forego/ctx"
 )
@@ -11,6 +12,7 @@ import (
 // Note: it uses an internal go-routine, which will block on read
 // If the close function is passed, it will be called when read is exhausted.
 func ReadAll(c ctx.C, r io.Reader, close func() error) ([]byte, error) {
+	var l sync.Mutex // protects out
 	out := bytes.Buffer{}
 	ch := make(chan error, 1)
 	if close != nil {
@@ -21,16 +23,20 @@ func ReadAll(c ctx.C, r io.Reader, close func() error) ([]byte, error) {
 		buf := make([]byte, 8192)
 		for c.Err() == nil {
 			ct, err := r.Read(buf)
+			l.Lock()
+			_, _ = out.Write(buf[0:ct]) // a reader can return both data and an error
+			l.Unlock()
 			if err != nil {
 				ch <- err
 				return
 			}
-			_, _ = out.Write(buf[0:ct])
 			//log.Printf("read %d bytes...", ct)
 		}
 	}()
 	select {
 	case <-c.Done():
+		l.Lock() // the go-routine might still be reading
+		defer l.Unlock()
 		return out.Bytes(), ctx.NewErrorf(c, "timeout: %w", c.Err())
 	case err := <-ch:
 		if err == io.EOF {
-- 
2.43.0


From b3d838f3c48500cb2ecf8b0ec979814b847b6dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:09 +0000
Subject: [PATCH 05/64] fix: holding the shutdown while others wait for its
 completion could panic (WaitGroup reuse)

---
 shutdown/shutdown.go | 46 +++++++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/shutdown/shutdown.go b/shutdown/shutdown.go
index 2aab1ac..9287a70 100644
--- a/shutdown/shutdown.go
+++ b/shutdown/shutdown.go
@@ -19,15 +19,21 @@ type shutter struct {
 	ch5  chan struct{}
 	once sync.Once
 	// active services holding the shutdown to complete
-	wg sync.WaitGroup
+	l     sync.Mutex
+	holds int
+	idle  chan struct{} // closed when there are no more holds, replaced by the next one
+	// NOTE: a sync.WaitGroup can't be used, because new holds might come while others are still waiting for the old ones
 }
 
 var shutdowner = newShutter()
 
 func newShutter() *shutter {
+	idle := make(chan struct{})
+	close(idle)
 	return &shutter{
-		ch:  make(chan struct{}),
-		ch5: make(chan struct{}),
+		ch:   make(chan struct{}),
+		ch5:  make(chan struct{}),
+		idle: idle,
 	}
 }
 
@@ -54,25 +60,39 @@ func (this *shutter) started5Sec() <-chan struct{} {
 
 // returns a channel that will close when the shutdown has completed
 func (this *shutter) done() <-chan struct{} {
-	ch := make(chan struct{})
-	go func() {
-		this.wg.Wait()
-		close(ch)
-	}()
-	return ch
+	this.l.Lock()
+	defer this.l.Unlock()
+	return this.idle
 }
 
 // prevent the shutdown to complete until released
 func (this *shutter) hold() ReleaseFn {
-	this.wg.Add(1)
-	return this.wg.Done
+	this.l.Lock()
+	defer this.l.Unlock()
+	if this.holds == 0 {
+		this.idle = make(chan struct{})
+	}
+	this.holds++
+	return this.release
+}
+
+func (this *shutter) release() {
+	this.l.Lock()
+	defer this.l.Unlock()
+	if this.holds == 0 {
+		panic("shutdown: released more than held")
+	}
+	this.holds--
+	if this.holds == 0 {
+		close(this.idle)
+	}
 }
 
 // prevents the shutdown to complete until released, and also wait for the shutdown to start
 func (this *shutter) holdAndWait() ReleaseFn {
-	this.wg.Add(1)
+	release := this.hold()
 	<-this.ch
-	return this.wg.Done
+	return release
 }
 
 // setup signals and wait for the shutdown to complete
-- 
2.43.0


From d8811f4dfa24d7ff9560052771f2ac0056ce10db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 06/64] fix: sibling spans must not share the same tracking id

---
 ctx/span.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctx/span.go b/ctx/span.go
index 401c379..ee68440 100644
--- a/ctx/span.go
+++ b/ctx/span.go
@@ -18,7 +18,7 @@ func WithTracking(c C, suggest string) C {
 	if suggest == "" {
 		suggest = uuid.NewString()
 	}
-	return trackingCtx{
+	return &trackingCtx{
 		C:    WithTag(c, "tracking-id", suggest),
 		ID:   suggest,
 		Last: 0,
@@ -38,7 +38,7 @@ func GetTracking(c C) string {
 
 type trackingNext struct{}
 
-func (c trackingCtx) Value(k any) any {
+func (c *trackingCtx) Value(k any) any {
 	switch k.(type) {
 	case trackingNext:
 		step := atomic.AddInt32(&c.Last, 1)
-- 
2.43.0


From 6402a275325d52c65df4d7af0aef28bc9b1f2e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 07/64] fix: ctx.JSON must copy what it unmarshals, the decoder
 reuses its buffer

---
 ctx/error.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctx/error.go b/ctx/error.go
index 641767d..5b04f71 100644
--- a/ctx/error.go
+++ b/ctx/error.go
@@ -81,7 +81,7 @@ func (this JSON) MarshalJSON() ([]byte, error) {
 	return this, nil
 }
 func (this *JSON) UnmarshalJSON(j []byte) error {
-	*this = j
+	*this = append((*this)[0:0:0], j...) // the decoder owns j, and may reuse it
 	return nil
 }
 func (this JSON) String() string {
-- 
2.43.0


From 161badd377bd1704a551cdac83b5139d941a1894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 08/64] fix: attaching a logger or helper must not change the
 parent context

---
 ctx/log/log.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctx/log/log.go b/ctx/log/log.go
index ea64de9..40b8943 100644
--- a/ctx/log/log.go
+++ b/ctx/log/log.go
@@ -168,7 +168,8 @@ func withConfig(c ctx.C, conf *config) ctx.C {
 func extractConfig(c ctx.C) *config {
 	if c != nil {
 		if conf, ok := c.Value(configKey{}).(*config); ok {
-			return conf
+			copy := *conf // never shared: deriving a context must not change its parent
+			return &copy
 		}
 	}
 	return &config{}
-- 
2.43.0


From f1c89a4d4a23a810de4642f0adfd4fe7bc517838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 09/64] fix: logging must not modify the arguments of the
 caller

---
 ctx/log/log.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ctx/log/log.go b/ctx/log/log.go
index 40b8943..2bace72 100644
--- a/ctx/log/log.go
+++ b/ctx/log/log.go
@@ -176,6 +176,7 @@ func extractConfig(c ctx.C) *config {
 }
 
 func FormatMsg(c ctx.C, tags *Tags, f string, args ...any) string {
+	args = append([]any{}, args...) // Loggable are replaced, but not in the slice of the caller
 	errs := []map[string]any{}
 	for i := 0; i < len(args); i++ {
 		switch arg := args[i].(type) {
-- 
2.43.0


From 7b5e30a7b6b7f81e25fad36bac4c1873aac6a581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:32 +0000
Subject: [PATCH 10/64] fix: a number that does not fit the target must be an
 error, not a different number

---
 enc/map.go     |  4 ++--
 enc/numeric.go | 34 +++++++++++++++++++++++++++++-----
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/enc/map.go b/enc/map.go
index 5c84ba2..10936ea 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -59,13 +59,13 @@ func (this Map) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) erro
 			case reflect.String:
 				kv.SetString(k)
 			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-				i, err := strconv.ParseInt(k, 10, 64)
+				i, err := strconv.ParseInt(k, 10, intokt.Bits())
 				if err != nil {
 					return ctx.NewErrorf(c, "can't convert %q to string at %v", k, handler.path.String()+"#key")
 				}
 				kv.SetInt(i)
 			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-				i, err := strconv.ParseUint(k, 10, 64)
+				i, err := strconv.ParseUint(k, 10, intokt.Bits())
 				if err != nil {
 					return ctx.NewErrorf(c, "can't convert %q to string at %v", k, handler.path.String()+"#key")
 				}
diff --git a/enc/numeric.go b/enc/numeric.go
index 7e7476d..72c8233 100644
--- a/enc/numeric.go
+++ b/enc/numeric.go
@@ -29,8 +29,13 @@ type Integer int
 var _ Node = Integer(0)
 var _ Numeric = Integer(0)
 
-func (this Integer) Int64() (int64, error)        { return int64(this), nil }
-func (this Integer) Uint64() (uint64, error)      { return uint64(this), nil }
+func (this Integer) Int64() (int64, error) { return int64(this), nil }
+func (this Integer) Uint64() (uint64, error) {
+	if this < 0 {
+		return 0, fmt.Errorf("number out of range: %v", this)
+	}
+	return uint64(this), nil
+}
 func (this Integer) Float64() (float64, error)    { return float64(this), nil }
 func (this Integer) String() string               { return strconv.FormatInt(int64(this), 10) }
 func (this Integer) GoString() string             { return fmt.Sprintf("enc.Integer{%v}", int64(this)) }
@@ -48,8 +53,18 @@ type Float float64
 var _ Node = Float(0)
 var _ Numeric = Float(0)
 
-func (this Float) Int64() (int64, error)        { return int64(this), nil }
-func (this Float) Uint64() (uint64, error)      { return uint64(this), nil }
+func (this Float) Int64() (int64, error) {
+	if !(this >= -1<<63 && this < 1<<63) { // also for NaN
+		return 0, fmt.Errorf("number out of range: %v", this)
+	}
+	return int64(this), nil
+}
+func (this Float) Uint64() (uint64, error) {
+	if !(this > -1 && this < 1<<64) { // also for NaN
+		return 0, fmt.Errorf("number out of range: %v", this)
+	}
+	return uint64(this), nil
+}
 func (this Float) Float64() (float64, error)    { return float64(this), nil }
 func (this Float) String() string               { return strconv.FormatFloat(float64(this), 'g', -1, 64) }
 func (this Float) GoString() string             { return fmt.Sprintf("enc.Float{%v}", float64(this)) }
@@ -77,7 +92,7 @@ func (this Digits) Uint64() (uint64, error) {
 	return i, err
 }
 func trimDecimal(s string) string {
-	if strings.Contains(string(s), ".") {
+	if strings.Contains(string(s), ".") && !strings.ContainsAny(s, "eE") { // with an exponent, the integer part is not what precedes the dot
 		return strings.Split(s, ".")[0]
 	}
 	return s
@@ -130,6 +145,9 @@ func unmarshalNumericInto(this numeric, c ctx.C, handler Handler, into reflect.V
 		if err != nil {
 			return err
 		}
+		if into.OverflowFloat(f) {
+			return ctx.NewErrorf(c, "can't unmarshal %s %v into %v: out of range", handler.path, this, into.Type())
+		}
 		into.SetFloat(f)
 	case reflect.Int,
 		reflect.Int8,
@@ -140,6 +158,9 @@ func unmarshalNumericInto(this numeric, c ctx.C, handler Handler, into reflect.V
 		if err != nil {
 			return err
 		}
+		if into.OverflowInt(i) {
+			return ctx.NewErrorf(c, "can't unmarshal %s %v into %v: out of range", handler.path, this, into.Type())
+		}
 		into.SetInt(int64(i))
 	case reflect.Uint,
 		reflect.Uint8,
@@ -150,6 +171,9 @@ func unmarshalNumericInto(this numeric, c ctx.C, handler Handler, into reflect.V
 		if err != nil {
 			return err
 		}
+		if into.OverflowUint(i) {
+			return ctx.NewErrorf(c, "can't unmarshal %s %v into %v: out of range", handler.path, this, into.Type())
+		}
 		into.SetUint(uint64(i))
 	case reflect.Interface:
 		v := reflect.ValueOf(this.native())
-- 
2.43.0


From f921012395b37afb6bd9698fd69374a2a27159ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:34 +0000
Subject: [PATCH 11/64] fix: big unsigned numbers must not be marshalled as
 negative

---
 enc/handler.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/enc/handler.go b/enc/handler.go
index fa079a9..9766426 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -3,7 +3,9 @@ package enc
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"reflect"
+	"strconv"
 	"time"
 
 	"github.com/Aize-Public/forego/ctx"
@@ -212,7 +214,11 @@ func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return Integer(v.Int()), nil
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		return Integer(v.Uint()), nil
+		if u := v.Uint(); u > math.MaxInt64 {
+			return Digits(strconv.FormatUint(u, 10)), nil // too big for Integer
+		} else {
+			return Integer(u), nil
+		}
 	case reflect.String:
 		return String(v.String()), nil
 	case reflect.Pointer:
-- 
2.43.0


From 849cd85fdff56ec4c1eb7c526c4849118346bca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:35 +0000
Subject: [PATCH 12/64] fix: a field tagged json:"-" must not be unmarshalled
 from the empty key

---
 enc/map.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/enc/map.go b/enc/map.go
index 10936ea..472399c 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -94,6 +94,9 @@ func (this Map) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) erro
 			ft := vt.Field(i)
 			if ft.IsExported() {
 				tag := parseTag(ft)
+				if tag.Skip {
+					continue
+				}
 				seen[tag.JSON] = true
 				v, ok := this[tag.JSON]
 				if ok {
-- 
2.43.0


From 86a00f741228b9690e1c286383ca8b915f869b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:13 +0000
Subject: [PATCH 13/64] fix: unmarshalling must report an error for targets
 that can't hold the value, and not panic

---
 enc/enc.go     | 22 ++++++++++++++++++++++
 enc/handler.go |  3 +++
 enc/list.go    |  9 +++------
 enc/map.go     |  5 ++---
 enc/numeric.go |  3 +--
 enc/pairs.go   |  2 +-
 enc/scalar.go  |  5 ++---
 enc/time.go    | 13 ++++++++-----
 8 files changed, 42 insertions(+), 20 deletions(-)

diff --git a/enc/enc.go b/enc/enc.go
index f422593..28c2574 100644
--- a/enc/enc.go
+++ b/enc/enc.go
@@ -58,6 +58,28 @@ func (this path) Parent() path {
 	return this
 }
 
+// the native value of n, where a missing node is the same as enc.Nil{}
+func native(n Node) any {
+	if n == nil {
+		return nil
+	}
+	return n.native()
+}
+
+// assign v to an interface, unless it doesn't implement it
+func setInterface(c ctx.C, handler Handler, into reflect.Value, v any) error {
+	rv := reflect.ValueOf(v)
+	if !rv.IsValid() {
+		into.SetZero()
+		return nil
+	}
+	if !rv.Type().AssignableTo(into.Type()) {
+		return ctx.NewErrorf(c, "can't unmarshal %s %T into %v", handler.path, v, into.Type())
+	}
+	into.Set(rv)
+	return nil
+}
+
 // convert json.Unmarshal(&any) to enc.Node
 func fromNative(in any) Node {
 	switch in := in.(type) {
diff --git a/enc/handler.go b/enc/handler.go
index 9766426..e3ae86f 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -56,6 +56,9 @@ func (this Handler) unmarshal(c ctx.C, from Node, v reflect.Value) error {
 	if this.Debugf != nil {
 		this.Debugf(c, "unmarshal( %v -> %v{%v} )", from, v.Type(), v)
 	}
+	if from == nil {
+		from = Nil{} // missing element
+	}
 	if !v.CanSet() {
 		return ctx.NewErrorf(c, "can't assign %v", v)
 	}
diff --git a/enc/list.go b/enc/list.go
index ef0fe6d..0d234e1 100644
--- a/enc/list.go
+++ b/enc/list.go
@@ -15,8 +15,7 @@ var _ Node = List{}
 func (this List) native() any {
 	out := []any{}
 	for _, n := range this {
-		x := n.native()
-		out = append(out, x)
+		out = append(out, native(n))
 	}
 	return out
 }
@@ -32,7 +31,7 @@ func (this List) GoString() string {
 func (this List) String() string {
 	list := []string{}
 	for _, p := range this {
-		list = append(list, p.String())
+		list = append(list, fmt.Sprint(p))
 	}
 	return "[" + strings.Join(list, ", ") + "]"
 }
@@ -40,9 +39,7 @@ func (this List) String() string {
 func (this List) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) error {
 	switch into.Kind() {
 	case reflect.Interface:
-		x := this.native()
-		into.Set(reflect.ValueOf(x))
-		return nil
+		return setInterface(c, handler, into, this.native())
 
 	case reflect.Slice:
 		slice := reflect.MakeSlice(into.Type(), len(this), len(this))
diff --git a/enc/map.go b/enc/map.go
index 472399c..e80bb53 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -18,7 +18,7 @@ var _ Node = Map{}
 func (this Map) native() any {
 	out := map[string]any{}
 	for k, n := range this {
-		out[k] = n.native()
+		out[k] = native(n)
 	}
 	return out
 }
@@ -122,8 +122,7 @@ func (this Map) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) erro
 		if handler.Debugf != nil {
 			handler.Debugf(c, "assign %v to %v", into.Type(), this)
 		}
-		into.Set(reflect.ValueOf(this.native()))
-		return nil
+		return setInterface(c, handler, into, this.native())
 
 	default:
 		return ctx.NewErrorf(c, "can't expand %s %T into %v", handler.path, this, into.Type())
diff --git a/enc/numeric.go b/enc/numeric.go
index 72c8233..3649dd9 100644
--- a/enc/numeric.go
+++ b/enc/numeric.go
@@ -176,8 +176,7 @@ func unmarshalNumericInto(this numeric, c ctx.C, handler Handler, into reflect.V
 		}
 		into.SetUint(uint64(i))
 	case reflect.Interface:
-		v := reflect.ValueOf(this.native())
-		into.Set(v)
+		return setInterface(c, handler, into, this.native())
 	case reflect.String:
 		into.SetString(this.String())
 	default:
diff --git a/enc/pairs.go b/enc/pairs.go
index 9534a05..5ceb350 100644
--- a/enc/pairs.go
+++ b/enc/pairs.go
@@ -26,7 +26,7 @@ func (this Pairs) AsMap() Map {
 func (this Pairs) native() any {
 	out := map[string]any{}
 	for _, p := range this {
-		out[p.Name] = p.Value.native()
+		out[p.Name] = native(p.Value)
 	}
 	return out
 }
diff --git a/enc/scalar.go b/enc/scalar.go
index b997673..45f16cc 100644
--- a/enc/scalar.go
+++ b/enc/scalar.go
@@ -29,8 +29,7 @@ func (this String) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) e
 	case reflect.String:
 		into.SetString(string(this))
 	case reflect.Interface:
-		v := reflect.ValueOf(this.native())
-		into.Set(v)
+		return setInterface(c, handler, into, this.native())
 	default:
 		return ctx.NewErrorf(c, "can't unmarshal %s %T into %v", handler.path, this, into.Type())
 	}
@@ -95,7 +94,7 @@ func (this Bool) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) err
 	case reflect.Bool:
 		into.SetBool(bool(this))
 	case reflect.Interface:
-		into.Set(reflect.ValueOf(bool(this)))
+		return setInterface(c, handler, into, this.native())
 	default:
 		return ctx.NewErrorf(c, "can't unmarshal %s %T into %v", handler.path, this, into.Type())
 	}
diff --git a/enc/time.go b/enc/time.go
index 5f31a7c..c1b77d3 100644
--- a/enc/time.go
+++ b/enc/time.go
@@ -58,7 +58,7 @@ func (this *Time) UnmarshalJSON(j []byte) error {
 func (this Time) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) error {
 	v := reflect.ValueOf(this)
 	if v.CanConvert(into.Type()) {
-		into.Set(v)
+		into.Set(v.Convert(into.Type()))
 		return nil
 	}
 	return ctx.NewErrorf(c, "can't unmarshal %s %T into %v", handler.path, this, into.Type())
@@ -86,12 +86,15 @@ func (this Duration) String() string {
 }
 
 func (this Duration) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) error {
-	v := reflect.ValueOf(this)
-	if v.CanConvert(into.Type()) {
-		into.Set(v)
+	switch into.Kind() {
+	case reflect.Interface:
+		return setInterface(c, handler, into, this)
+	case reflect.String:
+		into.SetString(this.String())
 		return nil
+	default:
+		return unmarshalNumericInto(Integer(this), c, handler, into)
 	}
-	return ctx.NewErrorf(c, "can't unmarshal %s %T into %v", handler.path, this, into.Type())
 }
 
 func (this Duration) MarshalJSON() ([]byte, error) {
-- 
2.43.0


From 5904c306fbe67ead2f9a2d444b119ce7f09d7849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:13 +0000
Subject: [PATCH 14/64] fix: a struct unmarshalled into any must use the same
 names as its JSON

---
 enc/pairs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enc/pairs.go b/enc/pairs.go
index 5ceb350..a4aba26 100644
--- a/enc/pairs.go
+++ b/enc/pairs.go
@@ -26,7 +26,7 @@ func (this Pairs) AsMap() Map {
 func (this Pairs) native() any {
 	out := map[string]any{}
 	for _, p := range this {
-		out[p.Name] = native(p.Value)
+		out[p.JSON] = native(p.Value)
 	}
 	return out
 }
-- 
2.43.0


From cc07b12c023f60719e0c82d932ca798a5186cedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:15 +0000
Subject: [PATCH 15/64] fix: marshalling enc.Pairs must keep the order

---
 enc/handler.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/enc/handler.go b/enc/handler.go
index e3ae86f..442c24b 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -182,6 +182,8 @@ func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 	switch in := in.(type) {
 	case nil:
 		return Nil{}, nil
+	case Map, Pairs:
+		return in.(Node), nil // as they are: going through JSON would lose the order of the pairs
 	case Marshaler:
 		//log.Warnf(c, "OHA: %T->MarshalNode", in)
 		return in.MarshalNode(c)
-- 
2.43.0


From b9364d451815e3f9d337e95bc4ff48db2755bebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:36 +0000
Subject: [PATCH 16/64] fix: marshalling must report an error instead of
 panicking, and accept nil pointers

---
 enc/handler.go |  6 +++---
 enc/json.go    | 14 +++++---------
 enc/pairs.go   | 13 +++++++++++--
 3 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/enc/handler.go b/enc/handler.go
index 442c24b..fd350f8 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -179,6 +179,9 @@ func Marshal(c ctx.C, in any) (Node, error) {
 
 func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 	//log.Warnf(c, "OHA: %T %v", in, in)
+	if v := reflect.ValueOf(in); v.Kind() == reflect.Pointer && v.IsNil() {
+		return Nil{}, nil // like encoding/json, methods are not called on nil pointers
+	}
 	switch in := in.(type) {
 	case nil:
 		return Nil{}, nil
@@ -208,9 +211,6 @@ func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 	t := v.Type()
 	switch t.Kind() {
 	default:
-		log.Warnf(c, "possible wrong fallback for type %T", in)
-		return fromNative(in), nil
-	case reflect.Func:
 		return nil, ctx.NewErrorf(c, "can't marshal %T", in)
 	case reflect.Bool:
 		return Bool(v.Bool()), nil
diff --git a/enc/json.go b/enc/json.go
index 10c01fa..0f0dd6f 100644
--- a/enc/json.go
+++ b/enc/json.go
@@ -30,7 +30,11 @@ func MarshalJSON(c ctx.C, from any) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	return JSON{}.Encode(c, n), nil
+	j, err := json.Marshal(n)
+	if err != nil {
+		return nil, ctx.WrapError(c, err)
+	}
+	return j, nil
 }
 
 func UnmarshalJSON(c ctx.C, j []byte, into any) error {
@@ -63,14 +67,6 @@ func (this JSON) Encode(c ctx.C, n Node) []byte {
 	}
 }
 
-func mustJSON(in any) []byte {
-	j, err := json.Marshal(in)
-	if err != nil {
-		panic(err)
-	}
-	return j
-}
-
 func (this JSON) Decode(c ctx.C, data []byte) (Node, error) {
 	if len(data) == 0 {
 		return nil, nil // NOTE(oha): we don't want to give error for empty or nil data
diff --git a/enc/pairs.go b/enc/pairs.go
index a4aba26..7cae1b1 100644
--- a/enc/pairs.go
+++ b/enc/pairs.go
@@ -2,6 +2,7 @@ package enc
 
 import (
 	"bytes"
+	"encoding/json"
 	"fmt"
 	"reflect"
 	"strings"
@@ -54,9 +55,17 @@ func (this Pairs) MarshalJSON() ([]byte, error) {
 		if i > 0 {
 			buf.WriteString(", ")
 		}
-		buf.Write(mustJSON(p.JSON))
+		k, err := json.Marshal(p.JSON)
+		if err != nil {
+			return nil, err
+		}
+		buf.Write(k)
 		buf.WriteString(": ")
-		buf.Write(mustJSON(p.Value))
+		v, err := json.Marshal(p.Value)
+		if err != nil {
+			return nil, err
+		}
+		buf.Write(v)
 	}
 	buf.WriteString("}")
 	return buf.Bytes(), nil
-- 
2.43.0


From b42dbde402a1cb897d8b31171736ffec17f4afcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:38 +0000
Subject: [PATCH 17/64] fix: unmarshalling must report an error for nodes which
 can't be encoded, and not panic

---
 enc/handler.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/enc/handler.go b/enc/handler.go
index fd350f8..da851c4 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -86,12 +86,19 @@ func (this Handler) unmarshal(c ctx.C, from Node, v reflect.Value) error {
 		if this.Debugf != nil {
 			this.Debugf(c, "is %T", into)
 		}
-		*into = JSON{}.Encode(c, from)
+		j, err := json.Marshal(from)
+		if err != nil {
+			return ctx.NewErrorf(c, "can't unmarshal %T into %T: %w", from, *into, err)
+		}
+		*into = j
 		warnIneff(c, "Warn: inefficient json.RawMessage, use enc.Node instead")
 		return nil
 	case *time.Time:
 		var t time.Time
-		err := json.Unmarshal(JSON{}.Encode(c, from), &t)
+		j, err := json.Marshal(from)
+		if err == nil {
+			err = json.Unmarshal(j, &t)
+		}
 		if err != nil {
 			return ctx.NewErrorf(c, "can't unmarshal %#v as time", from)
 		}
@@ -102,7 +109,10 @@ func (this Handler) unmarshal(c ctx.C, from Node, v reflect.Value) error {
 			this.Debugf(c, "is %T", into)
 		}
 		warnIneff(c, "Warn: inefficient %T.UnmarshalJSON(): implement enc.Unmarshaler instead", into)
-		j, _ := json.Marshal(from) // we must go back to the json
+		j, err := json.Marshal(from) // we must go back to the json
+		if err != nil {
+			return ctx.NewErrorf(c, "can't unmarshal %T into %T: %w", from, into, err)
+		}
 		return into.UnmarshalJSON(j)
 	case *Node:
 		if this.Debugf != nil {
-- 
2.43.0


From f0539cbb2dded47ed040dfda9cdce75e590d6c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:40 +0000
Subject: [PATCH 18/64] fix: concurrent unmarshalling must not race on the list
 of warnings

---
 enc/handler.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/enc/handler.go b/enc/handler.go
index da851c4..442f87d 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -6,6 +6,7 @@ import (
 	"math"
 	"reflect"
 	"strconv"
+	"sync"
 	"time"
 
 	"github.com/Aize-Public/forego/ctx"
@@ -29,7 +30,7 @@ func (this Handler) Append(p any) Handler {
 	return this
 }
 
-var ineff = map[string]bool{}
+var ineff sync.Map
 
 func MustUnmarshal(c ctx.C, n Node, into any) {
 	err := Handler{}.Unmarshal(c, n, into)
@@ -176,8 +177,7 @@ func (this Handler) unmarshal(c ctx.C, from Node, v reflect.Value) error {
 
 func warnIneff(c ctx.C, f string, args ...any) {
 	msg := fmt.Sprintf(f, args...)
-	if !ineff[msg] {
-		ineff[msg] = true
+	if _, warned := ineff.LoadOrStore(msg, true); !warned {
 		log.Warnf(c, f, args...)
 	}
 }
-- 
2.43.0


From edd03f73d4f6c17e122b5760db61a676dfcbd3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:41 +0000
Subject: [PATCH 19/64] fix: unmarshalling with a factory must set the value,
 and not panic

---
 enc/handler.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/enc/handler.go b/enc/handler.go
index 442f87d..a7f336d 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -142,13 +142,11 @@ func (this Handler) unmarshal(c ctx.C, from Node, v reflect.Value) error {
 				return ctx.NewErrorf(c, "factory error: %w", err)
 			}
 			s := reflect.ValueOf(obj)
-			if !s.CanConvert(v.Elem().Type()) {
-				return ctx.NewErrorf(c, "Factory %v returned %v which can't be converted to %v",
-					v.Type().Elem(), s.Type(), v.Elem().Type())
+			if !s.IsValid() || !s.CanConvert(v.Type()) {
+				return ctx.NewErrorf(c, "Factory returned %T which can't be converted to %v", obj, v.Type())
 			}
-			log.Debugf(c, "Factory %v returned %v which can be converted to %v",
-				v.Type().Elem(), s.Type(), v.Elem().Type())
-			v.Elem().Set(s) // we set the value, not the pointer... because go.reflect
+			log.Debugf(c, "Factory returned %v which can be converted to %v", s.Type(), v.Type())
+			v.Set(s.Convert(v.Type()))
 			return nil
 		}
 	}
-- 
2.43.0


From 8f0e7e9537000dc2484d97372c57d753fe1752dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:02 +0000
Subject: [PATCH 20/64] fix: decoding JSON must refuse data after the value

---
 enc/json.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/enc/json.go b/enc/json.go
index 0f0dd6f..e792bb4 100644
--- a/enc/json.go
+++ b/enc/json.go
@@ -3,6 +3,8 @@ package enc
 import (
 	"bytes"
 	"encoding/json"
+	"errors"
+	"io"
 
 	"github.com/Aize-Public/forego/ctx"
 )
@@ -75,6 +77,11 @@ func (this JSON) Decode(c ctx.C, data []byte) (Node, error) {
 	dec := json.NewDecoder(bytes.NewBuffer(data))
 	dec.UseNumber()
 	err := dec.Decode(&obj)
+	if err == nil {
+		if _, e := dec.Token(); e != io.EOF {
+			err = errors.New("invalid data after the top-level value")
+		}
+	}
 	if err != nil {
 		return nil, ctx.NewErrorf(ctx.WithTag(c, "data", string(data)), "%w", err)
 	}
-- 
2.43.0


From 50c341491121414768d7b94ca7d9daf00d98d49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:01 +0000
Subject: [PATCH 21/64] fix: operations registered with unexported values must
 not panic at each request

---
 api/handler.go | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/api/handler.go b/api/handler.go
index a2e2234..1371a8d 100644
--- a/api/handler.go
+++ b/api/handler.go
@@ -15,7 +15,7 @@ type Handler[T any] struct {
 	urls []*url.URL
 
 	auth *field
-	init map[int]reflect.Value
+	init reflect.Value // copied for each request
 	in   []field
 	out  []field
 }
@@ -36,9 +36,7 @@ func NewClient[T any](c ctx.C, init T) (Client[T], error) {
 func NewHandler[T any](c ctx.C, init T) (Handler[T], error) {
 	log.Debugf(c, "NewHandler[%T]", init)
 	initV := reflect.ValueOf(init)
-	this := Handler[T]{
-		init: map[int]reflect.Value{},
-	}
+	this := Handler[T]{}
 	if initV.Kind() != reflect.Pointer {
 		return this, ctx.NewErrorf(c, "expected *struct, got %T", init)
 	}
@@ -52,7 +50,8 @@ func NewHandler[T any](c ctx.C, init T) (Handler[T], error) {
 		return this, ctx.NewErrorf(c, "expected *struct, got %T", init)
 	}
 
-	// TODO(oha) use init as initializer
+	this.init = reflect.New(this.typ).Elem()
+	this.init.Set(initV)
 	for i := 0; i < this.typ.NumField(); i++ {
 		ft := this.typ.Field(i)
 		tag, err := parseTags(c, ft)
@@ -76,11 +75,9 @@ func NewHandler[T any](c ctx.C, init T) (Handler[T], error) {
 		if tag.url != nil {
 			this.urls = append(this.urls, tag.url)
 		}
-		if !tag.in && !tag.out && tag.url == nil {
-			v := initV.Field(f.i)
-			if !v.IsZero() {
-				this.init[f.i] = v
-				//log.Debugf(c, "init %v.%s = %#v", this.typ, f.tag.name, v)
+		if tag.in || tag.out || tag.url != nil {
+			if v := this.init.Field(f.i); v.CanSet() {
+				v.SetZero() // not part of the initial value
 			}
 		}
 	}
@@ -223,10 +220,7 @@ func (this Server[T]) Recv(c ctx.C, req ServerRequest) (T, error) {
 	log.Debugf(c, "Server[%T].Recv(%+v)", zero, req)
 	ptrV := reflect.New(this.typ)
 	v := ptrV.Elem()
-	for i, fv := range this.init {
-		v.Field(i).Set(fv)
-		//log.Debugf(c, "init %T.%v = %#v", this.typ, this.typ.Field(i).Name, fv)
-	}
+	v.Set(this.init)
 	for _, f := range this.in {
 		fv := v.Field(f.i)
 		err := req.Unmarshal(c, f.tag.name, fv)
-- 
2.43.0


From 68032c97609b0c7a88f1fe0ff212c5b1cdd2e865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:06 +0000
Subject: [PATCH 22/64] fix: a malformed API request must be answered with 400,
 as other receive errors

---
 http/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/api.go b/http/api.go
index 69f2ef4..9d6b425 100644
--- a/http/api.go
+++ b/http/api.go
@@ -33,7 +33,7 @@ func (s *Server) RegisterAPI(c ctx.C, obj Doable) (*openapi.PathItem, error) {
 		if r.Body != nil {
 			err := req.ReadFrom(c, bytes.NewBuffer(in))
 			if err != nil {
-				return nil, ctx.NewErrorf(c, "can't read request body: %v", err)
+				return nil, NewErrorf(c, 400, "can't read request body: %v", err) // receive errors are always 4xx
 			}
 			defer r.Body.Close()
 		} else {
-- 
2.43.0


From 58e06655ed44b455e0d100eb931ca6b610452d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:29 +0000
Subject: [PATCH 23/64] fix: the http client must close the body of error
 responses

---
 http/client.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/http/client.go b/http/client.go
index e242969..7c26f78 100644
--- a/http/client.go
+++ b/http/client.go
@@ -28,11 +28,13 @@ func (this Client) Get(c ctx.C, url string) ([]byte, error) {
 		return nil, ctx.NewErrorf(c, "can't create request: %w", err)
 	}
 	res, err := this.Do(req)
+	if res != nil && res.Body != nil {
+		defer res.Body.Close() // also for error codes
+	}
 	if err != nil {
 		return nil, err
 	}
 	if res.Body != nil {
-		defer res.Body.Close()
 		return io.ReadAll(res.Body)
 	}
 	return nil, nil
@@ -49,11 +51,13 @@ func (this Client) Post(c ctx.C, url string, body []byte) ([]byte, error) {
 	}
 	req.Header.Set(`Content-Type`, `application/json`)
 	res, err := this.Do(req)
+	if res != nil && res.Body != nil {
+		defer res.Body.Close() // also for error codes
+	}
 	if err != nil {
 		return nil, err
 	}
 	if res.Body != nil {
-		defer res.Body.Close()
 		return io.ReadAll(res.Body)
 	}
 	return nil, nil
@@ -104,6 +108,9 @@ func (this Client) API(c ctx.C, obj Doable) error {
 
 		log.Debugf(c, "client[%T].Send() %s", obj, j)
 		res, err := this.Do(req)
+		if res != nil && res.Body != nil {
+			defer res.Body.Close() // also for error codes
+		}
 		if err != nil {
 			return ctx.NewErrorf(c, "can't send request: %w", err)
 		}
@@ -116,7 +123,6 @@ func (this Client) API(c ctx.C, obj Doable) error {
 			if err != nil {
 				return ctx.NewErrorf(c, "can't read response: %w", err)
 			}
-			res.Body.Close()
 			log.Debugf(c, "client[%T].Recv() %s", obj, j)
 			return h.Recv(c, data, obj)
 		default:
-- 
2.43.0


From ea8f3cae06a0949cb3e1803728073c32b9a7802a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:39 +0000
Subject: [PATCH 24/64] fix: tags named like the attributes of slog must
 neither panic nor be renamed

---
 ctx/log/log.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctx/log/log.go b/ctx/log/log.go
index 2bace72..bfaac80 100644
--- a/ctx/log/log.go
+++ b/ctx/log/log.go
@@ -94,6 +94,9 @@ func WithHelper(c ctx.C, h func()) ctx.C {
 func NewDefaultSlogLogger(out io.Writer) *slog.Logger {
 	DefaultLoggerLevel.Set(slog.LevelDebug)
 	return slog.New(slog.NewJSONHandler(out, &slog.HandlerOptions{Level: DefaultLoggerLevel, ReplaceAttr: func(groups []string, a slog.Attr) slog.Attr {
+		if len(groups) > 0 {
+			return a // a tag, whatever its name
+		}
 		switch a.Key {
 		case slog.LevelKey:
 			level := a.Value.Any().(slog.Level)
-- 
2.43.0


From be8e3854638a6ba3924b80b7d2117d36bef6cc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:09 +0000
Subject: [PATCH 25/64] fix: websocket frames of a client must not panic the
 server, nor be taken for whole messages when they are not

A ping, a pong or a frame of a reserved type made the reading goroutine panic,
which ends the process. Pings are answered now, pongs ignored, the others end
the connection. A message cut short by the end of the connection, or only the
first fragment of one, was handed over as if it was whole. Close wrote to the
connection while another goroutine might be doing so.
---
 http/ws/ws.go | 100 +++++++++++++++++++++++++-------------------------
 1 file changed, 51 insertions(+), 49 deletions(-)

diff --git a/http/ws/ws.go b/http/ws/ws.go
index 8b18d60..8b590ac 100644
--- a/http/ws/ws.go
+++ b/http/ws/ws.go
@@ -1,7 +1,6 @@
 package ws
 
 import (
-	"fmt"
 	"io"
 	"sync"
 
@@ -41,12 +40,12 @@ func (this *wsImpl) Write(c ctx.C, n enc.Node) error {
 	this.m.Lock()
 	defer this.m.Unlock()
 	//log.Debugf(c, "ws.write: %s", j)
-	return this.write(c, j)
+	return this.write(c, websocket.TextFrame, j)
 }
 
 // note this is not safe for multiple go routines
-func (this *wsImpl) write(c ctx.C, data []byte) error {
-	w, err := this.conn.NewFrameWriter(websocket.TextFrame)
+func (this *wsImpl) write(c ctx.C, payloadType byte, data []byte) error {
+	w, err := this.conn.NewFrameWriter(payloadType)
 	if err != nil {
 		return ctx.WrapError(c, err)
 	}
@@ -70,57 +69,60 @@ func (this *wsImpl) Read(c ctx.C) (enc.Node, error) {
 }
 
 func (this *wsImpl) read(c ctx.C) ([]byte, error) {
-	r, err := this.conn.NewFrameReader()
-	if err != nil {
-		return nil, err
-	}
-	hr := r.HeaderReader()
-	if hr != nil {
-		//d, _ := io.ReadAll(hr)
-		//log.Debugf(c, "ws head: %x (%q)", d, d)
-		_, _ = io.Copy(io.Discard, hr) // we don't care
-	}
-	if c.Err() != nil {
-		return nil, ctx.WrapError(c, c.Err())
-	}
+	for {
+		r, err := this.conn.NewFrameReader()
+		if err != nil {
+			return nil, err
+		}
+		var head []byte
+		if hr := r.HeaderReader(); hr != nil {
+			head, _ = io.ReadAll(hr)
+		}
+		if c.Err() != nil {
+			return nil, ctx.WrapError(c, c.Err())
+		}
 
-	switch r.PayloadType() {
-	case websocket.ContinuationFrame:
-		return nil, ctx.NewErrorf(c, "unsupported continuation")
-	case websocket.TextFrame, websocket.BinaryFrame:
-	case websocket.CloseFrame:
-		// TODO read message and debug?
-		return nil, ctx.WrapError(c, io.EOF)
-	case websocket.PingFrame, websocket.PongFrame:
-		panic("unsupported ping-pong")
-		/*
-			            // TODO implements this
-						b := make([]byte, maxControlFramePayloadLength)
-						n, err := io.ReadFull(frame, b)
-						if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
-							return nil, err
-						}
-						io.Copy(ioutil.Discard, frame)
-						if frame.PayloadType() == PingFrame {
-							if _, err := handler.WritePong(b[:n]); err != nil {
-								return nil, err
-							}
-						}
-						return nil, nil
-		*/
-	default:
-		panic(fmt.Sprintf("unexpected type %b", r.PayloadType()))
-	}
+		switch r.PayloadType() {
+		case websocket.ContinuationFrame:
+			return nil, ctx.NewErrorf(c, "unsupported continuation")
+		case websocket.TextFrame, websocket.BinaryFrame:
+			if len(head) > 0 && head[0]&0x80 == 0 { // not the final fragment
+				return nil, ctx.NewErrorf(c, "unsupported fragmented message")
+			}
+		case websocket.CloseFrame:
+			// TODO read message and debug?
+			return nil, ctx.WrapError(c, io.EOF)
+		case websocket.PingFrame, websocket.PongFrame:
+		default:
+			return nil, ctx.NewErrorf(c, "unexpected type %b", r.PayloadType())
+		}
 
-	data, err := io.ReadAll(r)
-	if err != nil {
-		return nil, ctx.WrapError(c, err)
+		data, err := io.ReadAll(r)
+		if err != nil {
+			return nil, ctx.WrapError(c, err)
+		}
+		if len(data) < r.Len()-len(head) {
+			return nil, ctx.WrapError(c, io.ErrUnexpectedEOF)
+		}
+		switch r.PayloadType() {
+		case websocket.PingFrame:
+			this.m.Lock()
+			err := this.write(c, websocket.PongFrame, data)
+			this.m.Unlock()
+			if err != nil {
+				return nil, err
+			}
+		case websocket.PongFrame:
+		default:
+			log.Debugf(c, "ws recv: %s", data)
+			return data, nil
+		}
 	}
-	log.Debugf(c, "ws recv: %s", data)
-	return data, nil
 }
 
 func (this *wsImpl) Close(c ctx.C, status int) error {
+	this.m.Lock()
+	defer this.m.Unlock()
 	err := this.conn.WriteClose(status)
 	if err != nil {
 		return err
-- 
2.43.0


From 33d82c81671ba584be3e61414e98b8250d5d942f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:09 +0000
Subject: [PATCH 26/64] fix: closing a channel must not close the whole
 websocket connection

---
 http/ws/rpc.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/http/ws/rpc.go b/http/ws/rpc.go
index 4ccb874..99d89ce 100644
--- a/http/ws/rpc.go
+++ b/http/ws/rpc.go
@@ -43,7 +43,13 @@ func (this *RpcConn) onFrame(c ctx.C, f Frame) error {
 	switch f.Type {
 	case "close":
 		// WAIT FOR STUFF?
-		return this.Close(c, 1000)
+		if f.Channel == "" {
+			return this.Close(c, 1000)
+		}
+		if ch := this.byChan.Get(f.Channel); ch != nil {
+			return ch.Close(c)
+		}
+		return ctx.NewErrorf(c, "unknown channel")
 	case "new", "open":
 		if fn := this.h.byPath.Get(f.Path); fn != nil {
 			return fn(c, this, f)
-- 
2.43.0


From e8f6f307587a279a22847b154fcb3b405e24a0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:09 +0000
Subject: [PATCH 27/64] fix: an error of Init must be told to the client, and
 the channel must not stay

It was dropped, and the channel left behind with no methods.
---
 http/ws/handler.go | 10 +++++++++-
 http/ws/reflect.go |  6 +++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/http/ws/handler.go b/http/ws/handler.go
index 195c46d..40ddf93 100644
--- a/http/ws/handler.go
+++ b/http/ws/handler.go
@@ -125,10 +125,18 @@ func (this *RpcHandler) Register(c ctx.C, obj any) error {
 			ID:     f.Channel,
 		}
 		conn.byChan.Store(ch.ID, ch)
-		obj := b.build(C{
+		obj, err := b.build(C{
 			C:  c,
 			ch: ch,
 		}, f.Data)
+		if err != nil {
+			conn.byChan.Delete(ch.ID)
+			return conn.Send(c, Frame{
+				Channel: ch.ID,
+				Type:    "error",
+				Data:    enc.MustMarshal(c, err.Error()),
+			})
+		}
 		log.Debugf(c, "new %+v", obj)
 		return nil
 	})
diff --git a/http/ws/reflect.go b/http/ws/reflect.go
index 7f149f6..926195b 100644
--- a/http/ws/reflect.go
+++ b/http/ws/reflect.go
@@ -20,7 +20,7 @@ type builder struct {
 }
 
 // init a new object, and bind it's methods to the channel
-func (this builder) build(c C, req enc.Node) any {
+func (this builder) build(c C, req enc.Node) (any, error) {
 	v := reflect.New(this.structType)
 	for _, c := range this.fields {
 		//log.Debugf(nil, "set %v", c.value)
@@ -30,7 +30,7 @@ func (this builder) build(c C, req enc.Node) any {
 	if this.constructor.methodName != "" {
 		err := this.constructor.call(c, v, req)
 		if err != nil {
-			return err
+			return nil, err
 		}
 	}
 
@@ -58,7 +58,7 @@ func (this builder) build(c C, req enc.Node) any {
 		}
 	}
 
-	return v.Interface()
+	return v.Interface(), nil
 }
 
 type method struct {
-- 
2.43.0


From 124901e05d82d1271cc9e3751550729bcd2a5a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:28 +0000
Subject: [PATCH 28/64] fix: registering a struct for websockets must not panic

A struct that is not behind a pointer is not addressable; a pointer to something
else, or to nothing, is an error.
---
 http/ws/reflect.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/http/ws/reflect.go b/http/ws/reflect.go
index 926195b..9753af0 100644
--- a/http/ws/reflect.go
+++ b/http/ws/reflect.go
@@ -104,8 +104,13 @@ func (this *builder) inspect(c ctx.C, obj any) error {
 	origVal := reflect.ValueOf(obj)
 	switch origVal.Kind() {
 	case reflect.Pointer:
+		if origVal.IsNil() || origVal.Elem().Kind() != reflect.Struct {
+			return ctx.NewErrorf(c, "expected struct or *struct, got %T", obj)
+		}
 	case reflect.Struct:
-		origVal = origVal.Addr() // make sure it's a pointer
+		ptr := reflect.New(origVal.Type()) // make sure it's a pointer
+		ptr.Elem().Set(origVal)
+		origVal = ptr
 	default:
 		return ctx.NewErrorf(c, "expected struct or *struct, got %T", obj)
 	}
-- 
2.43.0


From cd035b8304135045fe9f1b556fc61dccf17a4685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:28 +0000
Subject: [PATCH 29/64] fix: private fields must not make opening a websocket
 channel panic

As documented only public fields are copied; setting others panics.
---
 http/ws/reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/ws/reflect.go b/http/ws/reflect.go
index 9753af0..b738011 100644
--- a/http/ws/reflect.go
+++ b/http/ws/reflect.go
@@ -124,7 +124,7 @@ func (this *builder) inspect(c ctx.C, obj any) error {
 	for i := 0; i < origVal.Elem().NumField(); i++ {
 		i := i
 		fv := origVal.Elem().Field(i)
-		if !fv.IsZero() {
+		if fv.CanSet() && !fv.IsZero() { // only public fields can be set
 			this.fields = append(this.fields, fieldInit{
 				index: i,
 				value: fv,
-- 
2.43.0


From 494875e4ab04b509c4aa349a9c54adc62690cebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:37 +0000
Subject: [PATCH 30/64] fix: a pointer or interface with omitempty must be kept
 when it holds a zero value

Only nothing at all is empty, as for encoding/json: a *float64 of 0 was lost,
and so was the 0, or the empty text, of a websocket reply.
---
 enc/handler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/enc/handler.go b/enc/handler.go
index a7f336d..6573587 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -308,6 +308,12 @@ func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 		if err != nil {
 			return nil, err
 		}
+		switch fv.Kind() {
+		case reflect.Pointer, reflect.Interface:
+			if fn != (Nil{}) {
+				tag.OmitEmpty = false // there is something, even if it is zero
+			}
+		}
 		switch fn := fn.(type) {
 		case Nil:
 			if !tag.OmitEmpty {
-- 
2.43.0


From e232fd652c4db0b4e682b5e24ceb835e69477f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:07 +0000
Subject: [PATCH 31/64] fix: a type which has no schema must be an error and
 not panic

---
 api/openapi/schema.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index a681d0c..eae8f6e 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -45,6 +45,9 @@ func (this *Service) SchemaFromType(c ctx.C, t reflect.Type, tags *reflect.Struc
 
 func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string) (s *Schema, err error) {
 	defer func() {
+		if err != nil {
+			return
+		}
 		if s.Format == s.Type {
 			s.Format = ""
 		}
-- 
2.43.0


From 1aa63cd82262c8a8cf508e8f87d93f749a6f789a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:07 +0000
Subject: [PATCH 32/64] fix: the schema of types whose zero value is a negative
 number

---
 api/openapi/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index eae8f6e..2830759 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -105,7 +105,7 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 					Format:  t.String(),
 					Example: tryDecodingAsBool(c, example),
 				}, nil
-			case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '.':
+			case '-', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '.':
 				// It could be either integer or float here, but it's not always possible to determine which
 				// Therefore just setting the type to "number", and doing best effort parsing of the example
 				var ex any
-- 
2.43.0


From d22b6a0a6ab0894add0c707e1a1c00cd78e2100b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:28 +0000
Subject: [PATCH 33/64] fix: schemas must list exactly the fields which are
 marshalled, and none be left incomplete by an error

---
 api/openapi/schema.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index 2830759..27ff2db 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -39,7 +39,19 @@ func (this *Service) SchemaFromType(c ctx.C, t reflect.Type, tags *reflect.Struc
 		doc = tags.Get("doc")
 		example = strings.TrimSpace(tags.Get("example"))
 	}
+	known := make(map[string]bool, len(this.Components.Schemas))
+	for k := range this.Components.Schemas {
+		known[k] = true
+	}
 	s, err := this.schemaFromType(c, t, doc, example)
+	if err != nil {
+		// whatever was added is either incomplete, or may refer to something which is
+		for k := range this.Components.Schemas {
+			if !known[k] {
+				delete(this.Components.Schemas, k)
+			}
+		}
+	}
 	return s, err
 }
 
@@ -212,6 +224,9 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 			var fields []string
 			for i := 0; i < tt.NumField(); i++ {
 				f := tt.Field(i)
+				if !f.IsExported() || f.Tag.Get("json") == "-" {
+					continue // not part of the data
+				}
 				s, err := this.schemaFromType(c, f.Type, f.Tag.Get("doc"), strings.TrimSpace(f.Tag.Get("example")))
 				if err != nil {
 					return structSchema, err
-- 
2.43.0


From 0a30cd5a37a7a6a29817cae31d18f56361b21133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:29 +0000
Subject: [PATCH 34/64] fix: the schema of enc.Pairs is an object

---
 api/openapi/schema.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index 27ff2db..31cfdb0 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -90,6 +90,14 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 			Example: example,
 		}, nil
 
+	case enc.Pairs:
+		// ordered, but still an object
+		return &Schema{
+			Type:    "object",
+			Format:  t.String(),
+			Example: tryDecodingAsMap(c, example),
+		}, nil
+
 	case time.Time, enc.Time:
 		return &Schema{
 			Type:    "string",
-- 
2.43.0


From 0e2fb523fee39b1bd942ceb7c5909b66971135c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:31 +0000
Subject: [PATCH 35/64] fix: the keys of component schemas must be valid for
 generic types

---
 api/openapi/schema.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index 31cfdb0..9ca5533 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -265,7 +265,14 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 		// While named structs are referenced with "$ref"
 		// Create reference
 		structKey := tt.PkgPath() + "/" + tt.Name()
-		structKey = strings.ReplaceAll(structKey, "/", "_")
+		structKey = strings.Map(func(r rune) rune {
+			switch {
+			case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '.', r == '-':
+				return r
+			default:
+				return '_' // nothing else is allowed, e.g. the brackets of a generic type
+			}
+		}, structKey)
 		schema := &Schema{Reference: referencePrefix + structKey}
 
 		// Add definition if not exists (the same struct type should only be defined once)
-- 
2.43.0


From dec9760480fff4f10cd6904574090aefb126cb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:55 +0000
Subject: [PATCH 36/64] fix: an example which is not a finite number must not
 break the openapi document

---
 api/openapi/schema.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index 9ca5533..3711f5a 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -3,6 +3,7 @@ package openapi
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -331,6 +332,9 @@ func tryDecodingAsFloat(c ctx.C, v string) any {
 		return nil
 	}
 	f, err := strconv.ParseFloat(v, 64)
+	if err == nil && (math.IsNaN(f) || math.IsInf(f, 0)) {
+		err = strconv.ErrRange // there is no such number in JSON
+	}
 	if err != nil {
 		log.Warnf(c, "Unable to parse example %q as float: %s", v, err)
 		return v
-- 
2.43.0


From c3f57eaea3ddb312119855aff3a13e51b23625e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:58 +0000
Subject: [PATCH 37/64] fix: different types with the same name must not share
 their schema

---
 api/openapi/openapi.go | 4 ++++
 api/openapi/schema.go  | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/api/openapi/openapi.go b/api/openapi/openapi.go
index 55a4837..feda7fe 100644
--- a/api/openapi/openapi.go
+++ b/api/openapi/openapi.go
@@ -1,5 +1,7 @@
 package openapi
 
+import "reflect"
+
 func NewService(title string) *Service {
 	out := &Service{
 		OpenAPI: "3.0.0",
@@ -32,6 +34,8 @@ type Service struct {
 
 	Paths      map[string]*Path `json:"paths"`
 	Components Component        `json:"components"`
+
+	types map[string]reflect.Type // by key in Components.Schemas
 }
 
 type Component struct {
diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index 3711f5a..c985dd6 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -50,6 +50,7 @@ func (this *Service) SchemaFromType(c ctx.C, t reflect.Type, tags *reflect.Struc
 		for k := range this.Components.Schemas {
 			if !known[k] {
 				delete(this.Components.Schemas, k)
+				delete(this.types, k)
 			}
 		}
 	}
@@ -274,6 +275,9 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 				return '_' // nothing else is allowed, e.g. the brackets of a generic type
 			}
 		}, structKey)
+		for key, i := structKey, 2; this.types[structKey] != nil && this.types[structKey] != tt; i++ {
+			structKey = fmt.Sprintf("%s_%d", key, i) // same name but different type, e.g. declared within functions
+		}
 		schema := &Schema{Reference: referencePrefix + structKey}
 
 		// Add definition if not exists (the same struct type should only be defined once)
@@ -281,6 +285,10 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 			this.Components.Schemas = make(map[string]*Schema)
 		}
 		if _, exists := this.Components.Schemas[structKey]; !exists {
+			if this.types == nil {
+				this.types = make(map[string]reflect.Type)
+			}
+			this.types[structKey] = tt
 			structSchema, err := build(structKey)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From e0620ae56399c792069704682c43eda3b7f21fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:03 +0000
Subject: [PATCH 38/64] fix: printing a counter must not race with its
 observations

---
 utils/prom/counter.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/utils/prom/counter.go b/utils/prom/counter.go
index caf75da..837fd73 100644
--- a/utils/prom/counter.go
+++ b/utils/prom/counter.go
@@ -31,6 +31,12 @@ func (this *counter) observe(val float64) {
 	this.sum += val
 }
 
+func (this *counter) value() float64 {
+	this.m.Lock()
+	defer this.m.Unlock()
+	return this.sum
+}
+
 func (this *Counter) Print(w io.Writer) error {
 	first := true
 	return this.val.RangeErr(func(l string, v *counter) error {
@@ -53,10 +59,10 @@ func (this *Counter) Print(w io.Writer) error {
 			}
 		}
 		if l == "" {
-			_, err := fmt.Fprintf(w, "%s %f\n", this.Name, v.sum)
+			_, err := fmt.Fprintf(w, "%s %f\n", this.Name, v.value())
 			return err
 		} else {
-			_, err := fmt.Fprintf(w, "%s{%s} %f\n", this.Name, l, v.sum)
+			_, err := fmt.Fprintf(w, "%s{%s} %f\n", this.Name, l, v.value())
 			return err
 		}
 	})
-- 
2.43.0


From 653fc99a8f3ecce4eb29fc275a949fe3dc0d6a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:04 +0000
Subject: [PATCH 39/64] fix: printing a histogram while it is observed for the
 first time must not panic

---
 utils/prom/histogram.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/utils/prom/histogram.go b/utils/prom/histogram.go
index e16d811..eee6f96 100644
--- a/utils/prom/histogram.go
+++ b/utils/prom/histogram.go
@@ -43,9 +43,7 @@ func (this *histogramTS) observe(le []float64, val float64) {
 	this.count++
 	this.sum += val
 
-	for len(this.buckets) < len(le) {
-		this.buckets = append(this.buckets, 0)
-	}
+	this.grow(len(le))
 	for i, le := range le {
 		if val <= le {
 			this.buckets[i]++
@@ -53,6 +51,13 @@ func (this *histogramTS) observe(le []float64, val float64) {
 	}
 }
 
+// must be called with the lock
+func (this *histogramTS) grow(n int) {
+	for len(this.buckets) < n {
+		this.buckets = append(this.buckets, 0)
+	}
+}
+
 func (this *Histogram) Print(name string, w io.Writer) (err error) {
 	first := true
 	return this.val.RangeErr(func(l string, v *histogramTS) error {
@@ -74,6 +79,7 @@ func (this *Histogram) Print(name string, w io.Writer) (err error) {
 func (this *histogramTS) print(w io.Writer, le []float64, name, labels string) (err error) {
 	this.m.Lock()
 	defer this.m.Unlock()
+	this.grow(len(le)) // it might be there already, but not observed yet
 	if labels == "" {
 		for i, le := range le {
 			b := this.buckets[i]
-- 
2.43.0


From 5e0260036d77b89b58af915feb1ad32b2bb6f00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:04 +0000
Subject: [PATCH 40/64] fix: label values and descriptions must be escaped as
 the Prometheus format requires

---
 utils/prom/counter.go   | 2 +-
 utils/prom/custom.go    | 2 +-
 utils/prom/gauge.go     | 2 +-
 utils/prom/histogram.go | 2 +-
 utils/prom/labels.go    | 7 ++++++-
 5 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/utils/prom/counter.go b/utils/prom/counter.go
index 837fd73..1e0edfc 100644
--- a/utils/prom/counter.go
+++ b/utils/prom/counter.go
@@ -42,7 +42,7 @@ func (this *Counter) Print(w io.Writer) error {
 	return this.val.RangeErr(func(l string, v *counter) error {
 		if first {
 			first = false
-			_, err := fmt.Fprintf(w, "# HELP %s %s\n", this.Name, this.Desc)
+			_, err := fmt.Fprintf(w, "# HELP %s %s\n", this.Name, escapeHelp.Replace(this.Desc))
 			if err != nil {
 				return err
 			}
diff --git a/utils/prom/custom.go b/utils/prom/custom.go
index 87e2c23..819214f 100644
--- a/utils/prom/custom.go
+++ b/utils/prom/custom.go
@@ -17,7 +17,7 @@ func (this *Custom) Print(name string, w io.Writer) error {
 	if len(m) == 0 {
 		return nil
 	}
-	_, err := fmt.Fprintf(w, "# HELP %s %s\n", name, this.Desc)
+	_, err := fmt.Fprintf(w, "# HELP %s %s\n", name, escapeHelp.Replace(this.Desc))
 	if err != nil {
 		return err
 	}
diff --git a/utils/prom/gauge.go b/utils/prom/gauge.go
index 12a7d20..dd2b628 100644
--- a/utils/prom/gauge.go
+++ b/utils/prom/gauge.go
@@ -67,7 +67,7 @@ func (this *Gauge) Print(name string, w io.Writer) error {
 	return this.val.RangeErr(func(l string, x gaugeEntry) error {
 		if first {
 			first = false
-			_, err := fmt.Fprintf(w, "# HELP %s %s\n", name, this.Desc)
+			_, err := fmt.Fprintf(w, "# HELP %s %s\n", name, escapeHelp.Replace(this.Desc))
 			if err != nil {
 				return err
 			}
diff --git a/utils/prom/histogram.go b/utils/prom/histogram.go
index eee6f96..3e0332e 100644
--- a/utils/prom/histogram.go
+++ b/utils/prom/histogram.go
@@ -63,7 +63,7 @@ func (this *Histogram) Print(name string, w io.Writer) (err error) {
 	return this.val.RangeErr(func(l string, v *histogramTS) error {
 		if first {
 			first = false
-			_, err := fmt.Fprintf(w, "# HELP %s %s\n", name, this.Desc)
+			_, err := fmt.Fprintf(w, "# HELP %s %s\n", name, escapeHelp.Replace(this.Desc))
 			if err != nil {
 				return err
 			}
diff --git a/utils/prom/labels.go b/utils/prom/labels.go
index 66760a0..ab63543 100644
--- a/utils/prom/labels.go
+++ b/utils/prom/labels.go
@@ -2,8 +2,13 @@ package prom
 
 import (
 	"fmt"
+	"strings"
 )
 
+// nothing else can be escaped
+var escapeLabel = strings.NewReplacer(`\`, `\\`, "\n", `\n`, `"`, `\"`)
+var escapeHelp = strings.NewReplacer(`\`, `\\`, "\n", `\n`)
+
 // returns a list of labels comma separated
 func stringify(keys []string, vals []string) string {
 	if len(keys) != len(vals) {
@@ -11,7 +16,7 @@ func stringify(keys []string, vals []string) string {
 	}
 	s := ""
 	for i := 0; i < len(keys); i++ {
-		s += fmt.Sprintf(",%s=%q", keys[i], vals[i])
+		s += fmt.Sprintf(",%s=\"%s\"", keys[i], escapeLabel.Replace(strings.ToValidUTF8(vals[i], "\uFFFD")))
 	}
 	if s == "" {
 		return ""
-- 
2.43.0


From ea459424ac00503f69f86358596e7690f2c48f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:05 +0000
Subject: [PATCH 41/64] fix: sums must be printed with their full precision

---
 utils/prom/counter.go   | 4 ++--
 utils/prom/histogram.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/prom/counter.go b/utils/prom/counter.go
index 1e0edfc..e5d867e 100644
--- a/utils/prom/counter.go
+++ b/utils/prom/counter.go
@@ -59,10 +59,10 @@ func (this *Counter) Print(w io.Writer) error {
 			}
 		}
 		if l == "" {
-			_, err := fmt.Fprintf(w, "%s %f\n", this.Name, v.value())
+			_, err := fmt.Fprintf(w, "%s %v\n", this.Name, v.value())
 			return err
 		} else {
-			_, err := fmt.Fprintf(w, "%s{%s} %f\n", this.Name, l, v.value())
+			_, err := fmt.Fprintf(w, "%s{%s} %v\n", this.Name, l, v.value())
 			return err
 		}
 	})
diff --git a/utils/prom/histogram.go b/utils/prom/histogram.go
index 3e0332e..867fa11 100644
--- a/utils/prom/histogram.go
+++ b/utils/prom/histogram.go
@@ -94,7 +94,7 @@ func (this *histogramTS) print(w io.Writer, le []float64, name, labels string) (
 			return err
 		}
 
-		_, err = fmt.Fprintf(w, "%s_sum %f\n", name, this.sum)
+		_, err = fmt.Fprintf(w, "%s_sum %v\n", name, this.sum)
 		if err != nil {
 			return err
 		}
@@ -116,7 +116,7 @@ func (this *histogramTS) print(w io.Writer, le []float64, name, labels string) (
 			return err
 		}
 
-		_, err = fmt.Fprintf(w, "%s_sum{%s} %f\n", name, labels, this.sum)
+		_, err = fmt.Fprintf(w, "%s_sum{%s} %v\n", name, labels, this.sum)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 9bc4af84d8aca8d657df482eb13e0f4bb55f071b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:34 +0000
Subject: [PATCH 42/64] fix: config fields of named bool and int types no
 longer panic

---
 config/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/config/config.go b/config/config.go
index 0e98501..f7537ef 100644
--- a/config/config.go
+++ b/config/config.go
@@ -96,13 +96,13 @@ func unmarshalText(c ctx.C, dest reflect.Value, name string, val string) (err er
 		default:
 			return ctx.NewErrorf(nil, "can't convert to boobool field %s: %q", name, val)
 		}
-		dest.Set(reflect.ValueOf(v))
+		dest.SetBool(v)
 	case reflect.Int:
 		i, err := strconv.Atoi(val)
 		if err != nil {
 			return ctx.NewErrorf(nil, "can't convert to int field %s: %q", name, val)
 		}
-		dest.Set(reflect.ValueOf(i))
+		dest.SetInt(int64(i))
 	case reflect.String:
 		v := reflect.ValueOf(val).Convert(dest.Type())
 		dest.Set(v)
-- 
2.43.0


From 126cceaa7b866c5503055f254b396529106f3c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:35 +0000
Subject: [PATCH 43/64] fix: config maps whose key type is not string no longer
 panic

---
 config/config.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index f7537ef..43bc630 100644
--- a/config/config.go
+++ b/config/config.go
@@ -122,6 +122,9 @@ func unmarshalText(c ctx.C, dest reflect.Value, name string, val string) (err er
 		}
 
 	case reflect.Map:
+		if dest.Type().Key().Kind() != reflect.String {
+			return ctx.NewErrorf(nil, "unsupported field type: %T", v)
+		}
 		if val != "" {
 			m := reflect.MakeMap(dest.Type())
 			parts := strings.Split(val, ",")
@@ -132,7 +135,7 @@ func unmarshalText(c ctx.C, dest reflect.Value, name string, val string) (err er
 				if err != nil {
 					return err
 				}
-				m.SetMapIndex(reflect.ValueOf(key), v)
+				m.SetMapIndex(reflect.ValueOf(key).Convert(dest.Type().Key()), v)
 			}
 			dest.Set(m)
 		}
-- 
2.43.0


From 8688ad9df06788d72bc71c25ce60dc61e79aba1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:35 +0000
Subject: [PATCH 44/64] fix: config.From(nil) is an error instead of a nil
 dereference

---
 config/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index 43bc630..2e57040 100644
--- a/config/config.go
+++ b/config/config.go
@@ -19,7 +19,7 @@ func Must[T any](c ctx.C, cfg T, f func(string) string) T {
 }
 
 func From[T any](c ctx.C, cfg T, f func(string) string) (T, error) {
-	if reflect.TypeOf(cfg).Kind() != reflect.Struct {
+	if t := reflect.TypeOf(cfg); t == nil || t.Kind() != reflect.Struct {
 		return cfg, ctx.NewErrorf(c, "expected struct, got %T", cfg)
 	}
 	v := reflect.ValueOf(&cfg).Elem()
-- 
2.43.0


From 5d81689871d52faca85a529f55590eed4ae846bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:35 +0000
Subject: [PATCH 45/64] fix: config tag on an unexported field is an error
 instead of a panic

---
 config/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/config/config.go b/config/config.go
index 2e57040..797fe1f 100644
--- a/config/config.go
+++ b/config/config.go
@@ -30,6 +30,9 @@ func From[T any](c ctx.C, cfg T, f func(string) string) (T, error) {
 		if tag == "" {
 			continue
 		}
+		if !ft.IsExported() {
+			return cfg, ctx.NewErrorf(c, "unexported field with config tag: %s", ft.Name)
+		}
 		parts := strings.Split(tag, ",")
 		key := parts[0]
 
-- 
2.43.0


From 5df29c21bd65d985d669f02f15db9112c6f951a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:35 +0000
Subject: [PATCH 46/64] fix: config lists no longer share their array with the
 given value

---
 config/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index 797fe1f..7582948 100644
--- a/config/config.go
+++ b/config/config.go
@@ -112,7 +112,7 @@ func unmarshalText(c ctx.C, dest reflect.Value, name string, val string) (err er
 	case reflect.Slice:
 		if val != "" {
 			parts := strings.Split(val, ",")
-			x := dest
+			x := dest.Slice3(0, dest.Len(), dest.Len()) // don't share the array with the given value
 			for _, el := range parts {
 				v := reflect.Indirect(reflect.New(dest.Type().Elem()))
 				err := unmarshalText(c, v, name+"[]", el)
-- 
2.43.0


From 2922975e47e847d91fe88cd2e201df0c9da927eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:03 +0000
Subject: [PATCH 47/64] fix: storage filters compare values, not their debug
 representation

---
 storage/keyvalue.go | 53 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 51 insertions(+), 2 deletions(-)

diff --git a/storage/keyvalue.go b/storage/keyvalue.go
index 9fc0d51..02ef155 100644
--- a/storage/keyvalue.go
+++ b/storage/keyvalue.go
@@ -2,6 +2,7 @@ package storage
 
 import (
 	"sync"
+	"time"
 
 	"github.com/Aize-Public/forego/ctx"
 	"github.com/Aize-Public/forego/ctx/log"
@@ -103,10 +104,58 @@ func (this Filter) Check(c ctx.C, val enc.Map) (bool, error) {
 	log.Debugf(c, "Check(%q %q %v)", v, this.Cmp, this.Val)
 	switch this.Cmp {
 	case Equal:
-		return v.GoString() == this.Val.GoString(), nil
+		return equal(v, this.Val), nil
 	case NotEqual:
-		return v.GoString() != this.Val.GoString(), nil
+		return !equal(v, this.Val), nil
 	default:
 		return false, ctx.NewErrorf(c, "unsupported cmp operator: %q", this.Cmp)
 	}
 }
+
+// true if a and b are the same value, no matter how it is held (e.g. enc.Digits or enc.Integer, enc.Pairs or enc.Map)
+func equal(a, b enc.Node) bool {
+	if a == nil {
+		a = enc.Nil{}
+	}
+	if b == nil {
+		b = enc.Nil{}
+	}
+	switch a := a.(type) {
+	case enc.Numeric:
+		b, ok := b.(enc.Numeric)
+		return ok && a.String() == b.String()
+	case enc.Time:
+		b, ok := b.(enc.Time)
+		return ok && time.Time(a).Equal(time.Time(b))
+	case enc.List:
+		b, ok := b.(enc.List)
+		if !ok || len(a) != len(b) {
+			return false
+		}
+		for i := range a {
+			if !equal(a[i], b[i]) {
+				return false
+			}
+		}
+		return true
+	case enc.Pairs:
+		return equal(a.AsMap(), b)
+	case enc.Map:
+		if p, ok := b.(enc.Pairs); ok {
+			b = p.AsMap()
+		}
+		b, ok := b.(enc.Map)
+		if !ok || len(a) != len(b) {
+			return false
+		}
+		for k, v := range a {
+			w, ok := b[k]
+			if !ok || !equal(v, w) {
+				return false
+			}
+		}
+		return true
+	default:
+		return a.GoString() == b.GoString()
+	}
+}
-- 
2.43.0


From 258228008ba2c8c66f2c012e2554e47ab695cbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:30 +0000
Subject: [PATCH 48/64] fix: source of an argument that is a function with an
 empty body

---
 utils/ast/call_args.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/utils/ast/call_args.go b/utils/ast/call_args.go
index 1901a34..f31051d 100644
--- a/utils/ast/call_args.go
+++ b/utils/ast/call_args.go
@@ -135,9 +135,11 @@ func (this visitor) Visit(n ast.Node) ast.Visitor {
 						}
 						switch a := a.(type) {
 						case *ast.FuncLit:
-							start := a.Body.List[0].Pos()
-							end := a.Body.List[len(a.Body.List)-1].End()
-							arg.Src = this.Src(start, end)
+							if len(a.Body.List) > 0 {
+								start := a.Body.List[0].Pos()
+								end := a.Body.List[len(a.Body.List)-1].End()
+								arg.Src = this.Src(start, end)
+							}
 						default:
 							//log.Printf("a: %#v", a)
 						}
@@ -163,9 +165,11 @@ func (this visitor) Visit(n ast.Node) ast.Visitor {
 						}
 						switch a := a.(type) {
 						case *ast.FuncLit:
-							start := a.Body.List[0].Pos()
-							end := a.Body.List[len(a.Body.List)-1].End()
-							arg.Src = this.Src(start, end) // `func() { BODY }` => `BODY`
+							if len(a.Body.List) > 0 {
+								start := a.Body.List[0].Pos()
+								end := a.Body.List[len(a.Body.List)-1].End()
+								arg.Src = this.Src(start, end) // `func() { BODY }` => `BODY`
+							}
 						}
 						arg.Assignment = this.scope[arg.Src]
 						call.Args = append(call.Args, arg)
-- 
2.43.0


From 5c049f88200523783e2dde11c48fd79ccc5bc4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:19 +0000
Subject: [PATCH 49/64] fix: LRU.String must hold the lock

---
 utils/caches/lru.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/caches/lru.go b/utils/caches/lru.go
index fe7fba0..9b351d4 100644
--- a/utils/caches/lru.go
+++ b/utils/caches/lru.go
@@ -98,6 +98,8 @@ func (this *LRU[K, V]) Get(c ctx.C, k K) (V, HitMiss, error) {
 }
 
 func (this *LRU[K, V]) String() string {
+	this.l.Lock()
+	defer this.l.Unlock()
 	if len(this.heap.list) == 0 {
 		return fmt.Sprintf("LRU{%d/%d, empty}", this.curSize, this.MaxSize)
 	}
-- 
2.43.0


From acb7a594042783e5d04f80ddfb16f6261ea4f7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:19 +0000
Subject: [PATCH 50/64] fix: paths of unhandled fields must not share an array

---
 enc/handler.go | 2 +-
 enc/map.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/enc/handler.go b/enc/handler.go
index 6573587..ce6c973 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -26,7 +26,7 @@ type Handler struct {
 }
 
 func (this Handler) Append(p any) Handler {
-	this.path = append(this.path, p)
+	this.path = append(this.path[:len(this.path):len(this.path)], p) // never shared with a sibling: callbacks may keep it
 	return this
 }
 
diff --git a/enc/map.go b/enc/map.go
index e80bb53..7901d75 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -110,7 +110,7 @@ func (this Map) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) erro
 		if handler.UnhandledFields != nil {
 			for k, v := range this {
 				if !seen[k] {
-					err := handler.UnhandledFields(c, append(handler.path, k), v)
+					err := handler.UnhandledFields(c, handler.Append(k).path, v)
 					if err != nil {
 						return ctx.WrapError(c, err)
 					}
-- 
2.43.0


From ec8349ea37a13cfe5d8bb9f79c875a90ac377ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:31 +0000
Subject: [PATCH 51/64] fix: schema of a pointer whose methods marshal it

---
 api/openapi/schema.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index c985dd6..b8dd849 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -78,6 +78,16 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 
 	zero := reflect.New(tt).Elem().Interface()
 	switch zero.(type) {
+	case json.Marshaler, enc.Marshaler:
+	default:
+		if t != tt { // the methods of a pointer count as well, if it is one
+			switch p := reflect.New(tt).Interface().(type) {
+			case json.Marshaler, enc.Marshaler:
+				zero = p
+			}
+		}
+	}
+	switch zero.(type) {
 	case json.RawMessage:
 		return &Schema{
 			Type:    "object",
-- 
2.43.0


From ca7de5a0546702cad35cb3bbd953b0a0fedd9952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:42 +0000
Subject: [PATCH 52/64] fix: schema of ctx.Error

---
 api/openapi/schema.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index b8dd849..511a3b4 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -110,6 +110,14 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 			Example: tryDecodingAsMap(c, example),
 		}, nil
 
+	case ctx.Error:
+		// marshalled as its message
+		return &Schema{
+			Type:    "string",
+			Format:  t.String(),
+			Example: example,
+		}, nil
+
 	case time.Time, enc.Time:
 		return &Schema{
 			Type:    "string",
-- 
2.43.0


From 1caf9b8e20b947b68d16544fda2a6def4038807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:38 +0000
Subject: [PATCH 53/64] fix: schema of enc.Digits

---
 api/openapi/schema.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index 511a3b4..b4f0bd7 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -118,6 +118,14 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 			Example: example,
 		}, nil
 
+	case enc.Digits:
+		// a number, even if empty
+		return &Schema{
+			Type:    "number",
+			Format:  t.String(),
+			Example: tryDecodingAsFloat(c, example),
+		}, nil
+
 	case time.Time, enc.Time:
 		return &Schema{
 			Type:    "string",
-- 
2.43.0


From 246c6b9d6f709585d0b3feb8c7503306a21bf5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:31 +0000
Subject: [PATCH 54/64] fix: the shutdown must wait for the requests in
 progress

---
 http/server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/http/server.go b/http/server.go
index f5c4cc0..f5c6b41 100644
--- a/http/server.go
+++ b/http/server.go
@@ -4,6 +4,7 @@ import (
 	"compress/gzip"
 	"context"
 	"encoding/json"
+	"errors"
 	"io"
 	"net"
 	"net/http"
@@ -117,6 +118,7 @@ func (this Server) Listen(c ctx.C, addr string) (*net.TCPAddr, error) {
 		return nil, err
 	}
 	ch := make(chan error, 1)
+	drained := make(chan struct{})
 
 	// we start the server in a goroutine
 	go func() {
@@ -132,9 +134,13 @@ func (this Server) Listen(c ctx.C, addr string) (*net.TCPAddr, error) {
 		if err != nil {
 			log.Warnf(c, "listen(%q) %v", addr, err)
 		}
+		if errors.Is(err, http.ErrServerClosed) {
+			<-drained // it returns as soon as the shutdown begins, but there might be requests in progress
+		}
 	}()
 
 	go func() {
+		defer close(drained)
 		<-shutdown.Started()
 		c, cf := ctx.WithTimeout(c, 30*time.Second)
 		defer cf()
-- 
2.43.0


From 4685a5fcb4274abd5ad47116ad400e37edbecc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:16 +0000
Subject: [PATCH 55/64] fix: Listen must not hang if the shutdown has begun

---
 http/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/http/server.go b/http/server.go
index f5c6b41..6b36b8f 100644
--- a/http/server.go
+++ b/http/server.go
@@ -133,6 +133,10 @@ func (this Server) Listen(c ctx.C, addr string) (*net.TCPAddr, error) {
 		err := s.Serve(l)
 		if err != nil {
 			log.Warnf(c, "listen(%q) %v", addr, err)
+			select {
+			case ch <- err: // it failed before it could accept anything, e.g. the shutdown has begun already
+			default:
+			}
 		}
 		if errors.Is(err, http.ErrServerClosed) {
 			<-drained // it returns as soon as the shutdown begins, but there might be requests in progress
-- 
2.43.0


From 3020a273687acbe5bb64fc90135a5242e29150cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:18 +0000
Subject: [PATCH 56/64] fix: requests must be counted once

---
 http/mux.go    | 13 ++++++++++++-
 http/server.go |  4 ++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/http/mux.go b/http/mux.go
index cac7611..f66b18a 100644
--- a/http/mux.go
+++ b/http/mux.go
@@ -19,12 +19,22 @@ func (this *Server) HandleFunc(path string, h http.HandlerFunc) *openapi.Path {
 
 func (this *Server) Handle(path string, h http.Handler) *openapi.Path {
 	this.mux.HandleFunc(path, func(w http.ResponseWriter, r *http.Request) {
+		switch w2 := w.(type) { // the server observes the request already, but only knows its URL
+		case *response:
+			w2.path = path
+			h.ServeHTTP(w, r)
+			return
+		case responseHijacker:
+			w2.path = path
+			h.ServeHTTP(w, r)
+			return
+		}
 		t0 := time.Now()
 		c := r.Context()
 		c = ctx.WithTag(c, "ua", r.UserAgent())
 		c = ctx.WithTag(c, "path", r.URL.Path)
 
-		w2 := &response{w, 0}
+		w2 := &response{ResponseWriter: w}
 		switch w := w.(type) {
 		case http.Hijacker:
 			// if there is an hijacker, we need to be a bit clever
@@ -48,6 +58,7 @@ func (this *Server) Handle(path string, h http.Handler) *openapi.Path {
 type response struct {
 	http.ResponseWriter
 	code int
+	path string // of the handler
 }
 
 type responseHijacker struct {
diff --git a/http/server.go b/http/server.go
index 6b36b8f..a3dad5e 100644
--- a/http/server.go
+++ b/http/server.go
@@ -48,7 +48,7 @@ func NewServer(c ctx.C) *Server {
 		c = ctx.WithTag(c, "ua", r.UserAgent())
 		c = ctx.WithTag(c, "path", r.URL.Path)
 
-		w2 := &response{w, 0}
+		w2 := &response{ResponseWriter: w, path: r.URL.Path} // TODO(oha) if we have templates, this won't work
 		switch w := w.(type) {
 		case http.Hijacker:
 			// if there is an hijacker, we need to be a bit clever
@@ -60,7 +60,7 @@ func NewServer(c ctx.C) *Server {
 		metric{
 			Method: r.Method,
 			Code:   w2.code,
-			Path:   r.URL.Path, // TODO(oha) if we have templates, this won't work
+			Path:   w2.path,
 		}.observe(time.Since(t0))
 	})
 
-- 
2.43.0


From 7cb4b60433b4d4981e013aa3a5f9d68b70a6b21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:47 +0000
Subject: [PATCH 57/64] fix: the status of requests answered implicitly, or
 hijacked

---
 http/mux.go    | 16 ++++++++++++++--
 http/server.go |  2 +-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/http/mux.go b/http/mux.go
index f66b18a..17a79f2 100644
--- a/http/mux.go
+++ b/http/mux.go
@@ -45,7 +45,7 @@ func (this *Server) Handle(path string, h http.Handler) *openapi.Path {
 
 		metric{
 			Method: r.Method,
-			Code:   w2.code,
+			Code:   w2.status(),
 			Path:   path,
 		}.observe(time.Since(t0))
 	})
@@ -85,6 +85,18 @@ func (r *response) Write(b []byte) (int, error) {
 	return r.ResponseWriter.Write(b)
 }
 
+// what the client gets
+func (r *response) status() int {
+	if r.code == 0 {
+		return http.StatusOK // unless told otherwise
+	}
+	return r.code
+}
+
 func (r responseHijacker) Hijack() (conn net.Conn, rw *bufio.ReadWriter, err error) {
-	return r.hijacker.Hijack()
+	conn, rw, err = r.hijacker.Hijack()
+	if err == nil && r.code == 0 {
+		r.code = http.StatusSwitchingProtocols
+	}
+	return conn, rw, err
 }
diff --git a/http/server.go b/http/server.go
index a3dad5e..aa9cee2 100644
--- a/http/server.go
+++ b/http/server.go
@@ -59,7 +59,7 @@ func NewServer(c ctx.C) *Server {
 
 		metric{
 			Method: r.Method,
-			Code:   w2.code,
+			Code:   w2.status(),
 			Path:   w2.path,
 		}.observe(time.Since(t0))
 	})
-- 
2.43.0


From ecfd3f39c303f7b1c78d3e085b11dc4cb8e380e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:16 +0000
Subject: [PATCH 58/64] fix: calling an operation without a url must be an
 error

---
 http/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/http/client.go b/http/client.go
index 7c26f78..e607738 100644
--- a/http/client.go
+++ b/http/client.go
@@ -94,6 +94,9 @@ func (this Client) API(c ctx.C, obj Doable) error {
 		}
 
 		u := h.URL()
+		if u == nil {
+			return ctx.NewErrorf(c, "no URL for %T", obj)
+		}
 		if this.BaseUrl != nil {
 			u, err = this.BaseUrl.Parse(u.String())
 			if err != nil {
-- 
2.43.0


From f0e018734011b98b607ec8b78e5eeb78c7f96d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:35 +0000
Subject: [PATCH 59/64] fix: the maximum length of the body of calls was
 ignored

---
 http/call.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/http/call.go b/http/call.go
index adbc369..c3aa3be 100644
--- a/http/call.go
+++ b/http/call.go
@@ -2,6 +2,7 @@ package http
 
 import (
 	"bytes"
+	"errors"
 	"net/http"
 	"time"
 
@@ -24,6 +25,13 @@ func (this CallHandler) readTimeout() time.Duration {
 	return 30 * time.Second
 }
 
+func (this CallHandler) maxLength() int64 {
+	if this.MaxLength > 0 {
+		return int64(this.MaxLength)
+	}
+	return 1024 * 1024
+}
+
 func (this CallHandler) Register(s *Server) {
 	s.mux.HandleFunc(this.Path, func(w http.ResponseWriter, r *http.Request) {
 		c := r.Context()
@@ -36,7 +44,12 @@ func (this CallHandler) Register(s *Server) {
 			}
 			var err error
 			if r.Body != nil {
-				call.reqBody, err = utils.ReadAll(c, r.Body, r.Body.Close)
+				body := http.MaxBytesReader(w, r.Body, this.maxLength())
+				call.reqBody, err = utils.ReadAll(c, body, body.Close)
+				var tooLarge *http.MaxBytesError
+				if errors.As(err, &tooLarge) {
+					return nil, NewErrorf(c, http.StatusRequestEntityTooLarge, "body too large: %w", err)
+				}
 				if err != nil {
 					return nil, NewErrorf(c, 400, "can't read body: %w", err)
 				}
-- 
2.43.0


From 31c24c0f4c65d36cff11e90f6907710d6faba41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:01 +0000
Subject: [PATCH 60/64] fix: errors over websockets which can't be marshalled
 must be told by their text, and not panic

---
 http/ws/conn.go    | 11 ++++++++++-
 http/ws/reflect.go |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/http/ws/conn.go b/http/ws/conn.go
index 58536d6..d2a053f 100644
--- a/http/ws/conn.go
+++ b/http/ws/conn.go
@@ -61,7 +61,7 @@ func (this *Conn) Loop(c ctx.C) error {
 			if err != nil {
 				this.Send(c, Frame{
 					Type: "disconnect",
-					Data: enc.MustMarshal(c, err),
+					Data: marshalError(c, err),
 				})
 				return ctx.NewErrorf(c, "closing: %v", err)
 			}
@@ -72,3 +72,12 @@ func (this *Conn) Loop(c ctx.C) error {
 func (this *Conn) Send(c ctx.C, obj any) error {
 	return this.ws.Write(c, enc.MustMarshal(c, obj))
 }
+
+// errors which can't be marshalled, or have nothing to marshal, are told by their text
+func marshalError(c ctx.C, err error) enc.Node {
+	n, merr := enc.Marshal(c, err)
+	if pairs, ok := n.(enc.Pairs); merr != nil || (ok && len(pairs) == 0) {
+		return enc.String(err.Error())
+	}
+	return n
+}
diff --git a/http/ws/reflect.go b/http/ws/reflect.go
index b738011..f6c06f0 100644
--- a/http/ws/reflect.go
+++ b/http/ws/reflect.go
@@ -45,7 +45,7 @@ func (this builder) build(c C, req enc.Node) (any, error) {
 					Channel: c.ch.ID,
 					Path:    method.name,
 					Type:    "return",
-					Data:    enc.MustMarshal(c, err),
+					Data:    marshalError(c, err),
 				})
 				return ctx.NewErrorf(c, "ws[%s|%s]: %v", c.ch.ID, method.name, err)
 			}
-- 
2.43.0


From b75e1db04003db627a1397ca7afa866ba2fcd2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:35 +0000
Subject: [PATCH 61/64] fix: answers must be compressed for those who accept
 the encoding, not the type

---
 http/server.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/http/server.go b/http/server.go
index aa9cee2..853495f 100644
--- a/http/server.go
+++ b/http/server.go
@@ -240,7 +240,7 @@ func (this *Server) handleRequest(path string, f func(c ctx.C, in []byte, r *htt
 		}
 
 		w.Header().Add("Content-Type", "application/json")
-		if len(out) > 16*1024 && strings.Contains(r.Header.Get("Accept"), "gzip") { // TODO ugly parsing, but good enough for now
+		if len(out) > 16*1024 && acceptsGzip(r.Header) {
 			w.Header().Add("Content-Encoding", "gzip")
 			w2 := gzip.NewWriter(w)
 			_, err = w2.Write(out)
@@ -254,3 +254,15 @@ func (this *Server) handleRequest(path string, f func(c ctx.C, in []byte, r *htt
 		}
 	})
 }
+
+// Accept is about the type of the content, not about its encoding
+func acceptsGzip(h http.Header) bool {
+	for _, coding := range strings.Split(strings.Join(h.Values("Accept-Encoding"), ","), ",") {
+		name, weight, _ := strings.Cut(coding, ";")
+		if strings.EqualFold(strings.TrimSpace(name), "gzip") {
+			q, ok := strings.CutPrefix(strings.TrimSpace(weight), "q=")
+			return !ok || strings.Trim(q, "0.") != "" // a weight of zero is a refusal
+		}
+	}
+	return false
+}
-- 
2.43.0


From c88fcc14c8c9a358104bdb5bde090010c4e7642a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:45 +0000
Subject: [PATCH 62/64] fix: an informational status must not be taken for the
 status of the answer

---
 http/mux.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/http/mux.go b/http/mux.go
index 17a79f2..3eb08c0 100644
--- a/http/mux.go
+++ b/http/mux.go
@@ -74,7 +74,9 @@ func (r *response) WriteHeader(code int) {
 		log.Warnf(nil, "duplicate WriteHeader() at %s", strings.Join(stack, "\n"))
 		return
 	}
-	r.code = code
+	if code >= 200 || code == http.StatusSwitchingProtocols { // others are informational, the status is yet to come
+		r.code = code
+	}
 	r.ResponseWriter.WriteHeader(code)
 }
 
-- 
2.43.0


From 6ba3645a4cff413a85adf1b25dfb7a4e89ef4c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:25 +0000
Subject: [PATCH 63/64] fix: storage filters must take numbers for equal
 however they are written

---
 storage/keyvalue.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/storage/keyvalue.go b/storage/keyvalue.go
index 02ef155..9af1354 100644
--- a/storage/keyvalue.go
+++ b/storage/keyvalue.go
@@ -1,6 +1,8 @@
 package storage
 
 import (
+	"strconv"
+	"strings"
 	"sync"
 	"time"
 
@@ -123,7 +125,7 @@ func equal(a, b enc.Node) bool {
 	switch a := a.(type) {
 	case enc.Numeric:
 		b, ok := b.(enc.Numeric)
-		return ok && a.String() == b.String()
+		return ok && (a.String() == b.String() || sameNumber(a.String(), b.String()))
 	case enc.Time:
 		b, ok := b.(enc.Time)
 		return ok && time.Time(a).Equal(time.Time(b))
@@ -159,3 +161,34 @@ func equal(a, b enc.Node) bool {
 		return a.GoString() == b.GoString()
 	}
 }
+
+// true if both are the same number, no matter how it is written (e.g. 1000000, 1e6 or 1e+06)
+func sameNumber(a, b string) bool {
+	aNeg, aDigits, aExp, aOk := decimal(a)
+	bNeg, bDigits, bExp, bOk := decimal(b)
+	return aOk && bOk && aNeg == bNeg && aDigits == bDigits && aExp == bExp
+}
+
+// the significant digits of a number, which is 0.digits * 10^exp
+func decimal(s string) (neg bool, digits string, exp int, ok bool) {
+	s, neg = strings.CutPrefix(s, "-")
+	s, e, hasExp := strings.Cut(strings.ToLower(s), "e")
+	if hasExp {
+		var err error
+		if exp, err = strconv.Atoi(e); err != nil {
+			return neg, "", 0, false
+		}
+	}
+	integer, fraction, _ := strings.Cut(s, ".")
+	all := integer + fraction
+	if all == "" || strings.Trim(all, "0123456789") != "" {
+		return neg, "", 0, false
+	}
+	digits = strings.TrimLeft(all, "0")
+	exp += len(integer) - (len(all) - len(digits))
+	digits = strings.TrimRight(digits, "0")
+	if digits == "" {
+		return false, "", 0, true
+	}
+	return neg, digits, exp, true
+}
-- 
2.43.0


From 8876486953f0e7cb0fbb03a618fa5567c00b3c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:07 +0000
Subject: [PATCH 64/64] fix: a time must stay the same moment in JSON when its
 offset has seconds

---
 enc/handler.go |  2 ++
 enc/time.go    | 13 +++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/enc/handler.go b/enc/handler.go
index ce6c973..d6323b6 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -200,6 +200,8 @@ func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 		return in.MarshalNode(c)
 	case time.Time:
 		return Time(in), nil
+	case *time.Time:
+		return Time(*in), nil
 		//return String(in.Format(time.RFC3339Nano)), nil
 	case ctx.Error:
 		return String(in.Error()), nil
diff --git a/enc/time.go b/enc/time.go
index c1b77d3..af17cd4 100644
--- a/enc/time.go
+++ b/enc/time.go
@@ -23,13 +23,22 @@ func (this Time) GoString() string {
 	return fmt.Sprintf("enc.Time{%v}", time.Time(this))
 }
 
+// RFC 3339 has no seconds in the offset, so the closest offset is used: it must be the same moment
+func (this Time) format() string {
+	t := time.Time(this)
+	if _, offset := t.Zone(); offset%60 != 0 {
+		t = t.In(time.FixedZone("", offset-offset%60))
+	}
+	return t.Format(time.RFC3339Nano)
+}
+
 func (this Time) String() string {
-	return time.Time(this).Format(time.RFC3339Nano)
+	return this.format()
 	//return fmt.Sprintf("%v", time.Time(this).UTC().Truncate(0))
 }
 
 func (this Time) MarshalJSON() ([]byte, error) {
-	return json.Marshal(time.Time(this).Format(time.RFC3339Nano))
+	return json.Marshal(this.format())
 }
 
 func (this *Time) Parse(s string) error {
-- 
2.43.0

