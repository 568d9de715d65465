From 73a2349f452e8c8626de0e340c775d6d1ed1c67f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:33:54 +0000
Subject: [PATCH 01/56] fix: store items with generated ids under the
 intercepted id

---
 pkg/resource/collection.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 82fba45..8e0d999 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -121,6 +121,10 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 				if writeRequest.idCallback != nil {
 					writeRequest.idCallback(id)
 				}
+				if c.idInterceptor != nil {
+					// store the item where calls using the generated id will look for it
+					id = c.idInterceptor(id)
+				}
 			}
 
 			val, exists := c.byId[id]
-- 
2.43.0


From 2d9015415d96eb55d1939b150c100df3b676ec10 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:40:06 +0000
Subject: [PATCH 02/56] fix: apply nested, overlapping and repeated mask paths
 to writes correctly

---
 pkg/masks/update.go | 66 ++++++++++++++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 24 deletions(-)

diff --git a/pkg/masks/update.go b/pkg/masks/update.go
index cdf66a0..49ca81d 100644
--- a/pkg/masks/update.go
+++ b/pkg/masks/update.go
@@ -1,6 +1,8 @@
 package masks
 
 import (
+	"slices"
+
 	"github.com/mennanov/fmutils"
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
@@ -39,7 +41,7 @@ func (f *FieldUpdater) Validate(m proto.Message) error {
 		// are fields mentioned in the update mask actually writable?
 		if f.writableFields != nil {
 			common := f.fullMask()
-			if len(common.Paths) != len(f.updateMask.Paths) {
+			if !slices.Equal(common.GetPaths(), normalPaths(f.updateMask)) {
 				return status.Errorf(codes.InvalidArgument, "%v mentions read-only fields", f.updateMaskFieldName)
 			}
 		}
@@ -55,14 +57,23 @@ func (f *FieldUpdater) Validate(m proto.Message) error {
 
 // Merge copies the values in src into dst based on the configured field masks.
 func (f *FieldUpdater) Merge(dst, src proto.Message) {
-	if f.writableFields != nil && len(f.writableFields.Paths) == 0 {
-		return // nothing is writable
+	if f.updateMask != nil && len(f.updateMask.GetPaths()) == 0 {
+		// non-nil mask with no paths => no changes
+		return
+	}
+
+	if f.writableFields == nil || len(f.writableFields.Paths) > 0 {
+		f.mergeFields(dst, src)
 	}
 
-	var writableMask fmutils.NestedMask
-	if f.writableFields != nil {
-		writableMask = fmutils.NestedMaskFromPaths(f.writableFields.Paths)
+	if f.resetMask != nil {
+		nestedMask(f.resetMask).Prune(dst)
 	}
+}
+
+// mergeFields copies the writable fields selected by the update mask from src to dst.
+func (f *FieldUpdater) mergeFields(dst, src proto.Message) {
+	writableMask := nestedMask(f.writableFields)
 
 	// only allow writing writable fields by resetting non-writable fields in src
 	writableMask.Filter(src)
@@ -77,39 +88,46 @@ func (f *FieldUpdater) Merge(dst, src proto.Message) {
 			// if only some fields are writable then reset only those
 			writableMask.Prune(dst)
 		}
-	} else if len(mask.GetPaths()) == 0 {
-		// non-nil mask with no paths => no changes
-		return
 	}
 
-	nestedMask := fmutils.NestedMaskFromPaths(mask.GetPaths())
-	nestedMask.Filter(src)
+	updateMask := nestedMask(mask)
+	updateMask.Filter(src)
 	proto.Merge(dst, src)
 
 	// if a field mentioned by the mask is nil, we should clear it
-	pruneEmpty(dst, src, nestedMask)
+	pruneEmpty(dst.ProtoReflect(), src.ProtoReflect(), updateMask)
+}
 
-	if f.resetMask != nil {
-		fmutils.Prune(dst, f.resetMask.Paths)
-	}
+// normalPaths returns the paths of mask sorted, without duplicates, and without paths covered by other paths.
+func normalPaths(mask *fieldmaskpb.FieldMask) []string {
+	mask = proto.Clone(mask).(*fieldmaskpb.FieldMask)
+	mask.Normalize()
+	return mask.GetPaths()
+}
 
-	return
+// nestedMask converts mask into a NestedMask.
+// The paths are normalized first, otherwise the path "a.b" would hide the path "a".
+func nestedMask(mask *fieldmaskpb.FieldMask) fmutils.NestedMask {
+	if mask == nil {
+		return nil
+	}
+	return fmutils.NestedMaskFromPaths(normalPaths(mask))
 }
 
-func pruneEmpty(dst, src proto.Message, mask fmutils.NestedMask) {
-	dstPr := dst.ProtoReflect()
-	srcPr := src.ProtoReflect()
-	dstPr.Range(func(d protoreflect.FieldDescriptor, v protoreflect.Value) bool {
+// pruneEmpty clears the fields of dst mentioned in mask that are not set in src.
+func pruneEmpty(dst, src protoreflect.Message, mask fmutils.NestedMask) {
+	dst.Range(func(d protoreflect.FieldDescriptor, v protoreflect.Value) bool {
 		fieldMask, ok := mask[string(d.Name())]
 		if !ok {
 			return true
 		}
-		if !srcPr.Has(d) {
-			dstPr.Clear(d)
+		if len(fieldMask) > 0 && d.Message() != nil && d.Cardinality() != protoreflect.Repeated {
+			// only some of the fields of this message are mentioned
+			pruneEmpty(v.Message(), src.Get(d).Message(), fieldMask)
 			return true
 		}
-		if d.Kind() == protoreflect.MessageKind && d.Cardinality() != protoreflect.Repeated {
-			pruneEmpty(dstPr.Get(d).Message().Interface(), srcPr.Get(d).Message().Interface(), fieldMask)
+		if !src.Has(d) {
+			dst.Clear(d)
 		}
 		return true
 	})
-- 
2.43.0


From 8e149a1c8a98fed10ad68e1b535f624fcd47bcca Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:44:26 +0000
Subject: [PATCH 03/56] fix: make read masks select whole messages, never panic
 and drop unselectable fields

---
 pkg/masks/get.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/pkg/masks/get.go b/pkg/masks/get.go
index 1767b89..b5fbbe7 100644
--- a/pkg/masks/get.go
+++ b/pkg/masks/get.go
@@ -5,6 +5,7 @@ import (
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
 	"google.golang.org/protobuf/proto"
+	"google.golang.org/protobuf/reflect/protoreflect"
 	"google.golang.org/protobuf/types/known/fieldmaskpb"
 )
 
@@ -45,7 +46,7 @@ func (r *ResponseFilter) Filter(msg proto.Message) {
 		proto.Reset(msg)
 		return
 	}
-	fmutils.Filter(msg, r.fields.GetPaths())
+	filterFields(msg.ProtoReflect(), nestedMask(r.fields))
 }
 
 // FilterClone is like Filter but clones and returns a new msg instead of modifying the original.
@@ -62,10 +63,36 @@ func (r *ResponseFilter) FilterClone(msg proto.Message) proto.Message {
 		return clone
 	}
 	clone := proto.Clone(msg)
-	fmutils.Filter(clone, r.fields.GetPaths())
+	filterFields(clone.ProtoReflect(), nestedMask(r.fields))
 	return clone
 }
 
+// filterFields clears everything in msg that isn't selected by mask.
+// Unlike fmutils.Filter this doesn't panic when paths continue through a field that has no sub-fields to select,
+// those fields are kept as they are.
+func filterFields(msg protoreflect.Message, mask fmutils.NestedMask) {
+	if len(msg.GetUnknown()) > 0 {
+		msg.SetUnknown(nil) // unknown fields can't be selected
+	}
+	msg.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
+		fieldMask, ok := mask[string(fd.Name())]
+		switch {
+		case !ok:
+			msg.Clear(fd)
+		case len(fieldMask) == 0, fd.IsMap(), fd.Message() == nil:
+			// keep the entire field
+		case fd.IsList():
+			list := v.List()
+			for i := 0; i < list.Len(); i++ {
+				filterFields(list.Get(i).Message(), fieldMask)
+			}
+		default:
+			filterFields(v.Message(), fieldMask)
+		}
+		return true
+	})
+}
+
 type ResponseFilterOption func(*ResponseFilter)
 
 var emptyResponseFilterOption ResponseFilterOption = func(_ *ResponseFilter) {
-- 
2.43.0


From 6c90873ad59d057d5e74f56826f01d9ba1154009 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 04/56] fix: make tolerance comparers reflexive, symmetric and
 exact, ignore change_time presence

---
 pkg/cmp/cmp.go    | 42 +++++++++++++++++++++++++++++++-----------
 pkg/cmp/number.go |  7 +++++++
 pkg/cmp/time.go   | 44 ++++++++++++++++++++++++--------------------
 3 files changed, 62 insertions(+), 31 deletions(-)

diff --git a/pkg/cmp/cmp.go b/pkg/cmp/cmp.go
index 5d37979..42c652b 100644
--- a/pkg/cmp/cmp.go
+++ b/pkg/cmp/cmp.go
@@ -42,34 +42,54 @@ func (eq equator) equalMessage(mx, my pref.Message) bool {
 		return false
 	}
 
-	nx := 0
 	equal := true
 	mx.Range(func(fd pref.FieldDescriptor, vx pref.Value) bool {
-		nx++
-		vy := my.Get(fd)
-		equal = my.Has(fd) && eq.equalField(fd, vx, vy)
+		if my.Has(fd) {
+			equal = eq.equalField(fd, vx, my.Get(fd))
+		} else {
+			equal = eq.equalAbsent(fd, vx, my.Get(fd))
+		}
 		return equal
 	})
 	if !equal {
 		return false
 	}
-	ny := 0
-	my.Range(func(fd pref.FieldDescriptor, vx pref.Value) bool {
-		ny++
-		return true
+	my.Range(func(fd pref.FieldDescriptor, vy pref.Value) bool {
+		if !mx.Has(fd) {
+			equal = eq.equalAbsent(fd, mx.Get(fd), vy)
+		}
+		return equal
 	})
-	if nx != ny {
+	if !equal {
 		return false
 	}
 
 	return eq.equalUnknown(mx.GetUnknown(), my.GetUnknown())
 }
 
+// equalAbsent compares two fields where only one of them is populated.
+func (eq equator) equalAbsent(fd pref.FieldDescriptor, x, y pref.Value) bool {
+	if ignoreField(fd) {
+		return true
+	}
+	if eq.cmpValue == nil || fd.HasPresence() || fd.IsList() || fd.IsMap() {
+		return false
+	}
+	// fields without presence are absent when they have their zero value, which can be close enough to y
+	equal, ok := eq.cmpValue(fd, x, y)
+	return equal && ok
+}
+
+// ignoreField returns true for fields that aren't compared: PullResponse.Change.change_time
+func ignoreField(fd pref.FieldDescriptor) bool {
+	return fd.Name() == "change_time" && fd.ContainingMessage().Name() == "Change"
+}
+
 // equalField compares two fields.
 func (eq equator) equalField(fd pref.FieldDescriptor, x, y pref.Value) bool {
 	switch {
-	// This is the case we've added, ignore PullResponse.Change.change_time
-	case fd.Name() == "change_time" && fd.ContainingMessage().Name() == "Change":
+	// This is the case we've added
+	case ignoreField(fd):
 		return true
 	case fd.IsList():
 		return eq.equalList(fd, x.List(), y.List())
diff --git a/pkg/cmp/number.go b/pkg/cmp/number.go
index b874ff2..7fd2755 100644
--- a/pkg/cmp/number.go
+++ b/pkg/cmp/number.go
@@ -8,12 +8,19 @@ import (
 
 // FloatValueApprox compares floating point values as equal if they are within
 // fraction or margin of each other.
+// NaN and the infinities are equal to themselves only.
 func FloatValueApprox(fraction, margin float64) Value {
 	return func(fd pref.FieldDescriptor, x, y pref.Value) (equal bool, ok bool) {
 		if fd.Kind() != pref.FloatKind && fd.Kind() != pref.DoubleKind {
 			return false, false
 		}
 		fx, fy := x.Float(), y.Float()
+		if fx == fy || (math.IsNaN(fx) && math.IsNaN(fy)) {
+			return true, true
+		}
+		if math.IsInf(fx, 0) || math.IsInf(fy, 0) {
+			return false, true
+		}
 		relMarg := fraction * math.Min(math.Abs(fx), math.Abs(fy))
 		return math.Abs(fx-fy) <= math.Max(margin, relMarg), true
 	}
diff --git a/pkg/cmp/time.go b/pkg/cmp/time.go
index f7b980a..086755a 100644
--- a/pkg/cmp/time.go
+++ b/pkg/cmp/time.go
@@ -1,6 +1,7 @@
 package cmp
 
 import (
+	"math"
 	"time"
 
 	pref "google.golang.org/protobuf/reflect/protoreflect"
@@ -26,16 +27,25 @@ func TimeValueWithin(d time.Duration) Value {
 			return mx.IsValid() == my.IsValid(), true
 		}
 
-		xt, yt := toTime(mx), toTime(my)
-		if xt.Before(yt) {
-			return yt.Sub(xt) <= d, true
-		}
-		return xt.Sub(yt) <= d, true
+		xt, yt := mx.Interface().(*timestamppb.Timestamp), my.Interface().(*timestamppb.Timestamp)
+		return within(xt.Seconds-yt.Seconds, int64(xt.Nanos)-int64(yt.Nanos), d), true
 	}
 }
 
-func toTime(x pref.Message) time.Time {
-	return x.Interface().(*timestamppb.Timestamp).AsTime()
+// within returns whether the magnitude of secs seconds plus nanos nanoseconds is no more than d.
+// Unlike time.Duration this doesn't saturate for differences of more than 292 years.
+func within(secs, nanos int64, d time.Duration) bool {
+	if secs < 0 || (secs == 0 && nanos < 0) {
+		secs, nanos = -secs, -nanos
+	}
+	switch {
+	case nanos < 0:
+		secs, nanos = secs-1, nanos+int64(time.Second)
+	case nanos >= int64(time.Second):
+		secs, nanos = secs+1, nanos-int64(time.Second)
+	}
+	dSecs, dNanos := int64(d/time.Second), int64(d%time.Second)
+	return secs < dSecs || (secs == dSecs && nanos <= dNanos)
 }
 
 // DurationValueWithin considers two durationpb.Duration to be equal if their durations are within d of each other.
@@ -45,10 +55,7 @@ func DurationValueWithin(d time.Duration) Value {
 		if returnEarly {
 			return equal, ok
 		}
-		if xd < yd {
-			return yd-xd <= d, true
-		}
-		return xd-yd <= d, true
+		return within(xd.Seconds-yd.Seconds, int64(xd.Nanos)-int64(yd.Nanos), d), true
 	}
 }
 
@@ -59,15 +66,12 @@ func DurationValueWithinP(p float32) Value {
 		if returnEarly {
 			return equal, ok
 		}
-		pd := float32(xd) / float32(yd)
-		if pd < 0 {
-			pd = -pd
-		}
-		return pd < p, true
+		xn, yn := toNanos(xd), toNanos(yd)
+		return math.Abs(xn-yn)*100 <= float64(p)*math.Min(math.Abs(xn), math.Abs(yn)), true
 	}
 }
 
-func cmpDuration(fd pref.FieldDescriptor, x, y pref.Value) (xd, yd time.Duration, equal, ok, returnEarly bool) {
+func cmpDuration(fd pref.FieldDescriptor, x, y pref.Value) (xd, yd *durationpb.Duration, equal, ok, returnEarly bool) {
 	if fd.Kind() != pref.MessageKind {
 		return xd, yd, false, false, true
 	}
@@ -84,10 +88,10 @@ func cmpDuration(fd pref.FieldDescriptor, x, y pref.Value) (xd, yd time.Duration
 		return xd, yd, mx.IsValid() == my.IsValid(), true, true
 	}
 
-	xd, yd = toDuration(mx), toDuration(my)
+	xd, yd = mx.Interface().(*durationpb.Duration), my.Interface().(*durationpb.Duration)
 	return xd, yd, false, false, false
 }
 
-func toDuration(x pref.Message) time.Duration {
-	return x.Interface().(*durationpb.Duration).AsDuration()
+func toNanos(x *durationpb.Duration) float64 {
+	return float64(x.Seconds)*float64(time.Second) + float64(x.Nanos)
 }
-- 
2.43.0


From 4739929f9d3c0f032aacc9480dec96649f9c1f68 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 05/56] fix: deliver updates between included versions of an
 item and drop those between excluded ones

---
 pkg/resource/change.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/resource/change.go b/pkg/resource/change.go
index b52cf69..06789dc 100644
--- a/pkg/resource/change.go
+++ b/pkg/resource/change.go
@@ -84,11 +84,12 @@ func (c *CollectionChange) include(includeFunc FilterFunc) (newChange *Collectio
 		return c, true
 	}
 
-	oldInclude := includeFunc(c.Id, c.OldValue)
-	newInclude := includeFunc(c.Id, c.NewValue)
+	// absent values, for example OldValue during an ADD, are never included
+	oldInclude := c.OldValue != nil && includeFunc(c.Id, c.OldValue)
+	newInclude := c.NewValue != nil && includeFunc(c.Id, c.NewValue)
 	if oldInclude == newInclude {
 		// the only time we want to skip sending the update is if both the old and new values are excluded
-		return c, !newInclude
+		return c, newInclude
 	}
 
 	if newInclude {
-- 
2.43.0


From 0bf3bf5357f57e8ab36dcfdbe5d2663b2bdbe6eb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 06/56] fix: compare changes with what the subscriber last
 received

---
 pkg/resource/collection.go | 25 +++++++++++++++++++++++--
 pkg/resource/value.go      |  3 ++-
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 8e0d999..64a8d8c 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -234,6 +234,12 @@ func (c *Collection) Pull(ctx context.Context, opts ...ReadOption) <-chan *Colle
 	go func() {
 		defer close(send)
 
+		// the value the receiver has for each item, only tracked if we need to compare against it
+		var last map[string]proto.Message
+		if c.equivalence != nil {
+			last = make(map[string]proto.Message)
+		}
+
 		if len(currentValues) > 0 {
 			sort.Slice(currentValues, func(i, j int) bool {
 				return currentValues[i].id < currentValues[j].id
@@ -249,6 +255,9 @@ func (c *Collection) Pull(ctx context.Context, opts ...ReadOption) <-chan *Colle
 					LastSeedValue: i == lastIndex,
 				}
 				change = change.filter(filter)
+				if last != nil {
+					last[change.Id] = change.NewValue
+				}
 				select {
 				case <-ctx.Done():
 					return
@@ -264,8 +273,20 @@ func (c *Collection) Pull(ctx context.Context, opts ...ReadOption) <-chan *Colle
 				continue
 			}
 			change = change.filter(filter)
-			if c.equivalence != nil && c.equivalence.Compare(change.OldValue, change.NewValue) {
-				continue
+			if last != nil {
+				if change.NewValue == nil {
+					delete(last, change.Id)
+				} else {
+					lastValue, ok := last[change.Id]
+					if !ok {
+						lastValue = change.OldValue
+					}
+					if lastValue != nil && c.equivalence.Compare(lastValue, change.NewValue) {
+						last[change.Id] = lastValue
+						continue
+					}
+					last[change.Id] = change.NewValue
+				}
 			}
 			select {
 			case send <- change:
diff --git a/pkg/resource/value.go b/pkg/resource/value.go
index 1a81a43..b2e2a6e 100644
--- a/pkg/resource/value.go
+++ b/pkg/resource/value.go
@@ -101,9 +101,11 @@ func (r *Value) Pull(ctx context.Context, opts ...ReadOption) <-chan *ValueChang
 	go func() {
 		defer close(typedEvents)
 
+		var last proto.Message // as seen by the receiver
 		if currentValue != nil {
 			change := &ValueChange{Value: currentValue, ChangeTime: changeTime, SeedValue: true, LastSeedValue: true}
 			change = change.filter(filter)
+			last = change.Value
 			select {
 			case <-ctx.Done():
 				return // give up sending
@@ -111,7 +113,6 @@ func (r *Value) Pull(ctx context.Context, opts ...ReadOption) <-chan *ValueChang
 			}
 		}
 
-		last := currentValue
 		for event := range on {
 			change := event.(*ValueChange).filter(filter)
 			if r.equivalence != nil && r.equivalence.Compare(last, change.Value) {
-- 
2.43.0


From 832c708964c3a578d02ff91f7cdc79eab91b6b61 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:17:28 +0000
Subject: [PATCH 07/56] fix: protect the collection rng during concurrent adds

---
 pkg/resource/collection.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 64a8d8c..1a5a7fc 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -19,8 +19,9 @@ import (
 type Collection struct {
 	*config
 
-	mu   sync.RWMutex // protects byId and rng from concurrent access
+	mu   sync.RWMutex // protects byId from concurrent access
 	byId map[string]*item
+	rngM sync.Mutex // protects rng from concurrent access, ids are generated during concurrent reads
 	// "change" events contain a *CollectionChange instance
 	bus minibus.Bus
 }
@@ -368,6 +369,8 @@ func (c *Collection) itemSlice(readConfig *ReadRequest) []idItem {
 }
 
 func (c *Collection) genID() (string, error) {
+	c.rngM.Lock()
+	defer c.rngM.Unlock()
 	return GenerateUniqueId(c.rng, func(candidate string) bool {
 		if c.idInterceptor != nil {
 			candidate = c.idInterceptor(candidate)
-- 
2.43.0


From 79f1ca41710fcdaae111337a5b4a933f5b3fdfab Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:17:34 +0000
Subject: [PATCH 08/56] fix: subscribe to a single item before PullID returns
 and stop the subscription with it

---
 pkg/resource/collection.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 1a5a7fc..0cd0ca3 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -307,14 +307,21 @@ func (c *Collection) PullID(ctx context.Context, id string, opts ...ReadOption)
 		id = c.idInterceptor(id)
 	}
 
+	// we only want to know about the one item
+	opts = append(opts[:len(opts):len(opts)], readOptionFunc(func(rr *ReadRequest) {
+		include := rr.Include
+		rr.Include = func(itemID string, item proto.Message) bool {
+			return itemID == id && (include == nil || include(itemID, item))
+		}
+	}))
+	ctx, cancel := context.WithCancel(ctx)
+	changes := c.Pull(ctx, opts...)
+
 	send := make(chan *ValueChange)
 	go func() {
 		defer close(send)
-		for change := range c.Pull(ctx, opts...) {
-			if change.Id != id {
-				continue
-			}
-
+		defer cancel() // we might stop before ctx is done
+		for change := range changes {
 			if change.ChangeType == types.ChangeType_REMOVE {
 				return
 			}
-- 
2.43.0


From 08dbc60cccf8dddbd045a124dbcf77767aaef1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:17:52 +0000
Subject: [PATCH 09/56] fix: abort creating or updating an item that was
 concurrently created or deleted

---
 pkg/resource/atomic.go     |  6 +++++-
 pkg/resource/collection.go | 26 ++++++++++++++++++++------
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/pkg/resource/atomic.go b/pkg/resource/atomic.go
index 2753f30..d439323 100644
--- a/pkg/resource/atomic.go
+++ b/pkg/resource/atomic.go
@@ -29,6 +29,7 @@ type SaveFn func(msg proto.Message)
 // mu.Lock will be held during the save call.
 // No locks will be held during the change call.
 //
+// get is called again, with mu.Lock held, before the save call.
 // An error will be returned if the value returned by get changes during the change call.
 func GetAndUpdate(mu *sync.RWMutex, get GetFn, change ChangeFn, save SaveFn) (oldValue proto.Message, newValue proto.Message, err error) {
 	mu.RLock()
@@ -45,7 +46,10 @@ func GetAndUpdate(mu *sync.RWMutex, get GetFn, change ChangeFn, save SaveFn) (ol
 
 	mu.Lock()
 	defer mu.Unlock()
-	oldValueAgain, _ := get()
+	oldValueAgain, err := get()
+	if err != nil {
+		return oldValue, newValue, err
+	}
 	if !proto.Equal(oldValue, oldValueAgain) {
 		return oldValue, newValue, status.Errorf(codes.Aborted, "concurrent update detected")
 	}
diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 0cd0ca3..280d119 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -105,12 +105,24 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 		return nil, err
 	}
 
-	var created proto.Message // during create, this is returned by GetFn so concurrent reference checks pass
-	oldValue, newValue, err := GetAndUpdate(
+	var created proto.Message  // during create, this is returned by GetFn so concurrent reference checks pass
+	var checked bool           // set once we know we want to update or create the item
+	var oldValue proto.Message // nil during create
+	_, newValue, err := GetAndUpdate(
 		&c.mu,
 		func() (item proto.Message, err error) {
-			if created != nil {
-				return created, nil
+			if checked {
+				val, exists := c.byId[id]
+				switch {
+				case exists && created == nil:
+					return val.body, nil
+				case !exists && created != nil:
+					return created, nil
+				case exists && writeRequest.expectAbsent:
+					return nil, ExpectAbsentPreconditionFailed
+				default: // created or deleted since we checked
+					return nil, status.Errorf(codes.Aborted, "concurrent update detected")
+				}
 			}
 
 			// handle empty ids, generating them, and invoking callbacks
@@ -133,11 +145,14 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 				if writeRequest.expectAbsent {
 					return nil, ExpectAbsentPreconditionFailed
 				}
+				checked = true
+				oldValue = val.body
 				return val.body, nil
 			}
 			if !writeRequest.createIfAbsent {
 				return nil, status.Errorf(codes.NotFound, "id %v not found", id)
 			}
+			checked = true
 			created = msg.ProtoReflect().New().Interface()
 			if writeRequest.createdCallback != nil {
 				writeRequest.createdCallback()
@@ -156,9 +171,8 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 		return nil, err
 	}
 	changeType := types.ChangeType_UPDATE
-	if oldValue == nil || created != nil {
+	if created != nil {
 		changeType = types.ChangeType_ADD
-		oldValue = nil
 	}
 	c.bus.Send(context.TODO(), &CollectionChange{
 		Id:         id,
-- 
2.43.0


From 55cd9d49203aabffb1c972d61eae5fe5bd294b2d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:17:55 +0000
Subject: [PATCH 10/56] fix: publish changes in commit order, outside the lock
 and with the stored change time

---
 internal/minibus/bus.go    | 112 ++++++++++++++++++++++++++++++++-----
 pkg/resource/collection.go |  35 +++++++-----
 pkg/resource/value.go      |  12 ++--
 3 files changed, 127 insertions(+), 32 deletions(-)

diff --git a/internal/minibus/bus.go b/internal/minibus/bus.go
index d90ab28..84e1371 100644
--- a/internal/minibus/bus.go
+++ b/internal/minibus/bus.go
@@ -10,34 +10,70 @@ type Bus struct {
 	listeners []*listener
 }
 
+// Send sends event to all the listeners, returning once each of them has received it or stopped listening.
+// Send returns false if ctx is done before then, in which case some of the listeners won't receive the event.
 func (b *Bus) Send(ctx context.Context, event any) (ok bool) {
-	// create a copy of the listeners so avoid holding the mutex a long time
-	var listeners []*listener
+	return b.Prepare(event).Send(ctx)
+}
+
+// Prepare gives event its place in the sequence of events each of the current listeners receives.
+// Events are received in the order they were prepared, no matter the order they are sent in.
+// The returned Delivery must be sent, events prepared after it will wait until it is.
+func (b *Bus) Prepare(event any) *Delivery {
 	b.listenerM.RLock()
+	defer b.listenerM.RUnlock()
+
+	d := &Delivery{bus: b, event: event}
 	for _, l := range b.listeners {
-		listeners = append(listeners, l)
+		d.slots = append(d.slots, l.join())
 	}
-	b.listenerM.RUnlock()
+	return d
+}
 
-	needGc := false
+// Delivery is an event that is ready to be sent to the listeners of a Bus.
+type Delivery struct {
+	bus   *Bus
+	event any
+	slots []*slot
+}
+
+// Send sends the event, see Bus.Send. It should be called only once.
+func (d *Delivery) Send(ctx context.Context) (ok bool) {
+	if len(d.slots) == 0 {
+		return true
+	}
 
-	// send the event to each listener that's not closed
-	for _, l := range listeners {
-		ok, active := l.send(ctx, event)
-		if !ok {
-			return false
+	// listeners that don't receive must not stop the other listeners getting the event
+	type result struct{ ok, active bool }
+	results := make(chan result, len(d.slots))
+	for i, s := range d.slots {
+		send := func() {
+			ok, active := s.send(ctx, d.event)
+			results <- result{ok, active}
 		}
-		if !active {
+		if i < len(d.slots)-1 {
+			go send()
+		} else {
+			send()
+		}
+	}
+
+	ok = true
+	needGc := false
+	for range d.slots {
+		r := <-results
+		ok = ok && r.ok
+		if !r.active {
 			// the listen context on this listener has been cancelled, we need to collect the garbage
 			needGc = true
 		}
 	}
 
 	if needGc {
-		b.collect()
+		d.bus.collect()
 	}
 
-	return true
+	return ok
 }
 
 func (b *Bus) collect() {
@@ -79,6 +115,56 @@ type listener struct {
 	m   sync.RWMutex
 	ch  chan any
 	ctx context.Context
+
+	queueM sync.Mutex
+	queue  []*slot // the events to send, in order. Only the first is being sent, the others wait for their turn.
+}
+
+// join adds a new slot to the end of the queue of events for this listener.
+func (l *listener) join() *slot {
+	l.queueM.Lock()
+	defer l.queueM.Unlock()
+	s := &slot{l: l, turn: make(chan struct{})}
+	l.queue = append(l.queue, s)
+	if len(l.queue) == 1 {
+		close(s.turn)
+	}
+	return s
+}
+
+// leave removes the slot from the queue of events for this listener.
+func (l *listener) leave(s *slot) {
+	l.queueM.Lock()
+	defer l.queueM.Unlock()
+	for i, other := range l.queue {
+		if other != s {
+			continue
+		}
+		l.queue = append(l.queue[:i], l.queue[i+1:]...)
+		if i == 0 && len(l.queue) > 0 {
+			close(l.queue[0].turn)
+		}
+		return
+	}
+}
+
+// slot is the place of an event in the queue of events for a listener.
+type slot struct {
+	l    *listener
+	turn chan struct{} // closed when there are no events to send before this one
+}
+
+func (s *slot) send(ctx context.Context, event any) (ok bool, active bool) {
+	defer s.l.leave(s)
+
+	select {
+	case <-ctx.Done():
+		return false, true
+	case <-s.l.ctx.Done():
+		return true, false
+	case <-s.turn:
+		return s.l.send(ctx, event)
+	}
 }
 
 func (l *listener) send(ctx context.Context, event any) (ok bool, active bool) {
diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 280d119..a2e5bc1 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -108,6 +108,7 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 	var created proto.Message  // during create, this is returned by GetFn so concurrent reference checks pass
 	var checked bool           // set once we know we want to update or create the item
 	var oldValue proto.Message // nil during create
+	var change *minibus.Delivery
 	_, newValue, err := GetAndUpdate(
 		&c.mu,
 		func() (item proto.Message, err error) {
@@ -161,7 +162,21 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 		},
 		writeRequest.changeFn(writer, msg),
 		func(msg proto.Message) {
-			c.byId[id] = &item{body: msg, changeTime: writeRequest.updateTime(c.clock)}
+			newItem := &item{body: msg, changeTime: writeRequest.updateTime(c.clock)}
+			c.byId[id] = newItem
+
+			changeType := types.ChangeType_UPDATE
+			if created != nil {
+				changeType = types.ChangeType_ADD
+			}
+			// prepared while we're locked so changes are received in the order they were made
+			change = c.bus.Prepare(&CollectionChange{
+				Id:         id,
+				ChangeTime: newItem.changeTime,
+				ChangeType: changeType,
+				OldValue:   oldValue,
+				NewValue:   msg,
+			})
 		})
 
 	if err != nil {
@@ -170,17 +185,7 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 		}
 		return nil, err
 	}
-	changeType := types.ChangeType_UPDATE
-	if created != nil {
-		changeType = types.ChangeType_ADD
-	}
-	c.bus.Send(context.TODO(), &CollectionChange{
-		Id:         id,
-		ChangeTime: writeRequest.updateTime(c.clock),
-		ChangeType: changeType,
-		OldValue:   oldValue,
-		NewValue:   newValue,
-	})
+	change.Send(context.TODO())
 	return newValue, nil
 }
 
@@ -226,13 +231,15 @@ func (c *Collection) Delete(id string, opts ...WriteOption) (proto.Message, erro
 
 		// actually do the delete
 		delete(c.byId, id)
-		c.bus.Send(context.TODO(), &CollectionChange{
+		change := c.bus.Prepare(&CollectionChange{
 			Id:         id,
-			ChangeTime: c.clock.Now(),
+			ChangeTime: args.updateTime(c.clock),
 			ChangeType: types.ChangeType_REMOVE,
 			OldValue:   oldVal.body,
 		})
 		c.mu.Unlock()
+		// subscribers might need the lock before they can receive the change
+		change.Send(context.TODO())
 		return oldVal.body, nil
 	}
 
diff --git a/pkg/resource/value.go b/pkg/resource/value.go
index b2e2a6e..06f50ea 100644
--- a/pkg/resource/value.go
+++ b/pkg/resource/value.go
@@ -58,6 +58,7 @@ func (r *Value) set(value proto.Message, request WriteRequest) (proto.Message, e
 		return nil, err
 	}
 
+	var change *minibus.Delivery
 	disarm := timeoutAlarm(time.Second, "GetAndUpdate took too long")
 	_, newValue, err := GetAndUpdate(
 		&r.mu,
@@ -68,6 +69,11 @@ func (r *Value) set(value proto.Message, request WriteRequest) (proto.Message, e
 		func(message proto.Message) {
 			r.value = message
 			r.changeTime = request.updateTime(r.clock)
+			// prepared while we're locked so changes are received in the order they were made
+			change = r.bus.Prepare(&ValueChange{
+				Value:      message,
+				ChangeTime: r.changeTime,
+			})
 		},
 	)
 	disarm()
@@ -78,11 +84,7 @@ func (r *Value) set(value proto.Message, request WriteRequest) (proto.Message, e
 
 	ctx, cancel := context.WithTimeout(context.TODO(), time.Second*5)
 	defer cancel()
-	r.bus.Send(ctx, &ValueChange{
-		Value:      newValue,
-		ChangeTime: request.updateTime(r.clock),
-	})
-	if errors.Is(ctx.Err(), context.DeadlineExceeded) {
+	if !change.Send(ctx) {
 		return nil, errors.New("bus.Send blocked for too long")
 	}
 
-- 
2.43.0


From ef0182ba232582b236e60aebf68a772fa70633a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:52 +0000
Subject: [PATCH 11/56] fix: group execution without members and after an early
 return

Execute panicked with index out of range when there are no members and the
strategy is One, Fast or Race. Members that respond after Fast or Race have
returned were blocked forever sending their response.
---
 pkg/group/exec.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pkg/group/exec.go b/pkg/group/exec.go
index 5fc4ad4..b8483e4 100644
--- a/pkg/group/exec.go
+++ b/pkg/group/exec.go
@@ -39,20 +39,23 @@ func Execute(ctx context.Context, strategy ExecutionStrategy, members []Member)
 		return ExecuteAny(ctx, members)
 	case ExecutionStrategyOne:
 		res, i, err := ExecuteOne(ctx, members)
-		allRes := make([]proto.Message, len(members))
-		allRes[i] = res
-		return allRes, err
+		return resultAt(len(members), i, res), err
 	case ExecutionStrategyFast:
 		res, i, err := ExecuteFast(ctx, members)
-		allRes := make([]proto.Message, len(members))
-		allRes[i] = res
-		return allRes, err
+		return resultAt(len(members), i, res), err
 	case ExecutionStrategyRace:
 		res, i, err := ExecuteRace(ctx, members)
-		allRes := make([]proto.Message, len(members))
+		return resultAt(len(members), i, res), err
+	}
+}
+
+// resultAt returns n results, all of them nil except the i-th which is res.
+func resultAt(n, i int, res proto.Message) []proto.Message {
+	allRes := make([]proto.Message, n)
+	if i < n { // false when there are no members
 		allRes[i] = res
-		return allRes, err
 	}
+	return allRes
 }
 
 // ExecuteAll executes all the member functions in parallel,
@@ -169,7 +172,8 @@ func ExecuteRace(ctx context.Context, members []Member) (proto.Message, int, err
 // The returned chan will contain the responses in completion order.
 // The chan will be closed once all members have returned a result.
 func executeEach(ctx context.Context, members []Member) <-chan memberResponse {
-	responses := make(chan memberResponse)
+	// buffered so members can always report their response, even if nobody waits for it anymore
+	responses := make(chan memberResponse, len(members))
 	var all sync.WaitGroup
 	all.Add(len(members))
 
-- 
2.43.0


From 42123440f94174b4346b35513fcd3a2f539bfd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:27 +0000
Subject: [PATCH 12/56] fix: average the brightness of the light group members
 that responded

Members without a result, those that failed or are not the first to respond
with strategy One, Fast or Race, still counted towards the average.
---
 pkg/trait/lightpb/group.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pkg/trait/lightpb/group.go b/pkg/trait/lightpb/group.go
index 5362aac..148c138 100644
--- a/pkg/trait/lightpb/group.go
+++ b/pkg/trait/lightpb/group.go
@@ -163,29 +163,34 @@ func (s *Group) pullBrightnessActions(request *traits.PullBrightnessRequest, mem
 
 func (s *Group) reduce(results []proto.Message) *traits.Brightness {
 	val := new(traits.Brightness)
-	for i, result := range results {
-		if result == nil {
-			continue
+	n := 0 // how many results contributed to val
+	for _, result := range results {
+		typedResult, _ := result.(*traits.Brightness)
+		if typedResult == nil {
+			continue // the member didn't return a result
 		}
-		typedResult := result.(*traits.Brightness)
-		val = s.reduceBrightness(val, typedResult, i)
+		val = s.reduceBrightness(val, typedResult, n)
+		n++
 	}
 	return val
 }
 
 func (s *Group) reduceBrightnessChanges(arr []*traits.PullBrightnessResponse_Change) *traits.PullBrightnessResponse_Change {
 	val := &traits.PullBrightnessResponse_Change{}
-	for i, change := range arr {
-		if change == nil {
+	n := 0 // how many changes contributed to val
+	for _, change := range arr {
+		if change.GetBrightness() == nil {
 			// nil changes happen because the incoming array can be partially populated
 			// depending on whether we've received anything from a group member
 			continue
 		}
-		val.Brightness = s.reduceBrightness(val.Brightness, change.Brightness, i)
+		val.Brightness = s.reduceBrightness(val.Brightness, change.Brightness, n)
+		n++
 	}
 	return val
 }
 
+// reduceBrightness combines v with acc, which is the combination of i other values.
 func (s *Group) reduceBrightness(acc, v *traits.Brightness, i int) *traits.Brightness {
 	if v == nil {
 		return acc
-- 
2.43.0


From b4a377c27c01192550b5cddeb0ebf32c9408077e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:15 +0000
Subject: [PATCH 13/56] fix: compare timestamps as -1, 0 or 1

---
 pkg/time/timestamp.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/time/timestamp.go b/pkg/time/timestamp.go
index 8c6715e..00b34ae 100644
--- a/pkg/time/timestamp.go
+++ b/pkg/time/timestamp.go
@@ -4,9 +4,15 @@ import "google.golang.org/protobuf/types/known/timestamppb"
 
 // CompareAscending returns -1 if t1 is before t2, 1 if t1 is after t2 and 0 if t1 is equal to t2
 func CompareAscending(t1, t2 *timestamppb.Timestamp) int {
-	seconds := t1.Seconds - t2.Seconds
-	if seconds != 0 {
-		return int(seconds)
+	switch {
+	case t1.Seconds < t2.Seconds:
+		return -1
+	case t1.Seconds > t2.Seconds:
+		return 1
+	case t1.Nanos < t2.Nanos:
+		return -1
+	case t1.Nanos > t2.Nanos:
+		return 1
 	}
-	return int(t1.Nanos - t2.Nanos)
+	return 0
 }
-- 
2.43.0


From 9189a85060231fb5e5b8acd3bbc057074b4fd5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:15 +0000
Subject: [PATCH 14/56] fix: empty periods intersect nothing

---
 pkg/time/period.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/time/period.go b/pkg/time/period.go
index d775a21..3993bd0 100644
--- a/pkg/time/period.go
+++ b/pkg/time/period.go
@@ -37,7 +37,10 @@ func PeriodsIntersect(p1, p2 *time.Period) bool {
 	p1lower, p1upper := cutPeriod(p1)
 	p2lower, p2upper := cutPeriod(p2)
 
-	return p1lower.CompareTo(p2upper) < 0 &&
+	// an empty period encloses no non-empty period, wherever it is
+	return p1lower.CompareTo(p1upper) < 0 &&
+		p2lower.CompareTo(p2upper) < 0 &&
+		p1lower.CompareTo(p2upper) < 0 &&
 		p2lower.CompareTo(p1upper) < 0
 }
 
-- 
2.43.0


From 18b5f702c5cda16c0eb0dc0eeeeec2d867211487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:15 +0000
Subject: [PATCH 15/56] fix: keep the shape of an infinite segment when cutting
 it

---
 pkg/trait/electricpb/segmentpb/cut.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pkg/trait/electricpb/segmentpb/cut.go b/pkg/trait/electricpb/segmentpb/cut.go
index b5bf0da..4cb8ff7 100644
--- a/pkg/trait/electricpb/segmentpb/cut.go
+++ b/pkg/trait/electricpb/segmentpb/cut.go
@@ -15,10 +15,12 @@ func Cut(d time.Duration, segment *traits.ElectricMode_Segment) (before, after *
 		return nil, segment, d < 0
 	}
 	if segment.GetLength() == nil {
-		return &traits.ElectricMode_Segment{
+		before = &traits.ElectricMode_Segment{
 			Magnitude: segment.GetMagnitude(),
 			Length:    durationpb.New(d),
-		}, segment, false
+		}
+		copyShape(before, segment)
+		return before, segment, false
 	}
 
 	l := segment.GetLength().AsDuration()
@@ -35,14 +37,15 @@ func Cut(d time.Duration, segment *traits.ElectricMode_Segment) (before, after *
 		Length:    durationpb.New(l - d),
 	}
 
-	// handle shapes
-	if segment.GetShape() != nil {
-		switch shape := segment.GetShape().(type) {
-		case *traits.ElectricMode_Segment_Fixed:
-			before.Shape = &traits.ElectricMode_Segment_Fixed{Fixed: shape.Fixed}
-			after.Shape = &traits.ElectricMode_Segment_Fixed{Fixed: shape.Fixed}
-		}
-	}
+	copyShape(before, segment)
+	copyShape(after, segment)
 
 	return before, after, false
 }
+
+func copyShape(dst, src *traits.ElectricMode_Segment) {
+	switch shape := src.GetShape().(type) {
+	case *traits.ElectricMode_Segment_Fixed:
+		dst.Shape = &traits.ElectricMode_Segment_Fixed{Fixed: shape.Fixed}
+	}
+}
-- 
2.43.0


From 8a7ba6b750b560b814e3c5ed3daf06f21511c76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:15 +0000
Subject: [PATCH 16/56] fix: find the active segment among very long segments

---
 pkg/trait/electricpb/segmentpb/active.go | 2 +-
 pkg/trait/electricpb/segmentpb/shift.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/electricpb/segmentpb/active.go b/pkg/trait/electricpb/segmentpb/active.go
index d59a5d6..3b410f0 100644
--- a/pkg/trait/electricpb/segmentpb/active.go
+++ b/pkg/trait/electricpb/segmentpb/active.go
@@ -22,7 +22,7 @@ func ActiveAt(d time.Duration, segments ...*traits.ElectricMode_Segment) (elapse
 		}
 
 		l := segment.Length.AsDuration()
-		if cur+l > d {
+		if l > d-cur { // not cur+l > d, which overflows
 			return cur, i
 		}
 		cur += l
diff --git a/pkg/trait/electricpb/segmentpb/shift.go b/pkg/trait/electricpb/segmentpb/shift.go
index 9cac3ab..4cfd6a8 100644
--- a/pkg/trait/electricpb/segmentpb/shift.go
+++ b/pkg/trait/electricpb/segmentpb/shift.go
@@ -45,7 +45,7 @@ func Shift(d time.Duration, segments ...*traits.ElectricMode_Segment) []*traits.
 			return segments[i:]
 		}
 		l := segment.Length.AsDuration()
-		if cur+l > d {
+		if l > d-cur { // not cur+l > d, which overflows
 			_, after, _ := Cut(d-cur, segment)
 			out := make([]*traits.ElectricMode_Segment, len(segments)-i)
 			out[0] = after
-- 
2.43.0


From 89977c879b353c09fef255ed3fd6d0834afa6feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:15 +0000
Subject: [PATCH 17/56] fix: sum segments with negative magnitudes and without
 rounding residue

---
 pkg/trait/electricpb/segmentpb/sum.go | 40 +++++++++++++--------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/pkg/trait/electricpb/segmentpb/sum.go b/pkg/trait/electricpb/segmentpb/sum.go
index a2d53ea..09fbddd 100644
--- a/pkg/trait/electricpb/segmentpb/sum.go
+++ b/pkg/trait/electricpb/segmentpb/sum.go
@@ -17,36 +17,36 @@ func Sum(segmentSlices ...[]*traits.ElectricMode_Segment) []*traits.ElectricMode
 	cuts := calcCuts(segmentSlices...)
 
 	var result []*traits.ElectricMode_Segment
-	var lastTime time.Duration
-	for _, cut := range cuts {
-		length := cut.at - lastTime
-
-		if len(result) == 0 {
-			result = append(result, &traits.ElectricMode_Segment{})
+	for i, cut := range cuts {
+		if i == 0 && cut.at > 0 {
+			result = append(result, &traits.ElectricMode_Segment{Length: durationpb.New(cut.at)})
 		}
 
-		if length == 0 {
-			result[len(result)-1].Magnitude += cut.delta
+		last := i == len(cuts)-1
+		if !last && cuts[i+1].at == cut.at {
 			continue
 		}
-
-		lastResult := result[len(result)-1]
-		lastResult.Length = durationpb.New(length)
-		result = append(result, &traits.ElectricMode_Segment{Magnitude: lastResult.Magnitude + cut.delta})
-
-		lastTime = cut.at
-	}
-
-	if len(result) > 0 {
-		last := result[len(result)-1]
-		if last.Length == nil && last.Magnitude <= 0 {
-			result = result[:len(result)-1]
+		// add up the active segments instead of accumulating the deltas, which leaves rounding errors behind
+		segment := &traits.ElectricMode_Segment{Magnitude: sumMagnitudeAt(cut.at, segmentSlices...)}
+		if !last {
+			segment.Length = durationpb.New(cuts[i+1].at - cut.at)
+		} else if segment.Magnitude == 0 {
+			break // nothing, or nothing that matters, is active after the last cut
 		}
+		result = append(result, segment)
 	}
 
 	return result
 }
 
+func sumMagnitudeAt(d time.Duration, segmentSlices ...[]*traits.ElectricMode_Segment) (sum float32) {
+	for _, slice := range segmentSlices {
+		magnitude, _ := MagnitudeAt(d, slice...)
+		sum += magnitude
+	}
+	return sum
+}
+
 func calcCuts(segmentSlices ...[]*traits.ElectricMode_Segment) []cut {
 	var cuts []cut
 	for _, slice := range segmentSlices {
-- 
2.43.0


From fba540f6affe67c819855bfb101f2758d7e68845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:15 +0000
Subject: [PATCH 18/56] fix: sum modes that start at the zero time

---
 pkg/trait/electricpb/modepb/sum.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/electricpb/modepb/sum.go b/pkg/trait/electricpb/modepb/sum.go
index d1c1efd..0a2f9c6 100644
--- a/pkg/trait/electricpb/modepb/sum.go
+++ b/pkg/trait/electricpb/modepb/sum.go
@@ -32,10 +32,10 @@ func Sum(modes ...*traits.ElectricMode) *traits.ElectricMode {
 		if mode.StartTime != nil {
 			stCount++
 			st := mode.StartTime.AsTime()
-			if earliest.IsZero() || st.Before(earliest) {
+			if stCount == 1 || st.Before(earliest) {
 				earliest = st
 			}
-			if latest.IsZero() || st.After(latest) {
+			if stCount == 1 || st.After(latest) {
 				latest = st
 			}
 		}
-- 
2.43.0


From dcb8f00719f34f438fe7df22d515bcfb896e5d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:21 +0000
Subject: [PATCH 19/56] fix: trait model subscriptions end when cancelled while
 their consumer isn't receiving

---
 pkg/trait/accesspb/model.go           |  6 +++++-
 pkg/trait/airqualitysensorpb/model.go |  6 +++++-
 pkg/trait/airtemperaturepb/model.go   |  6 +++++-
 pkg/trait/electricpb/model.go         | 18 +++++++++++++++---
 pkg/trait/energystoragepb/model.go    |  6 +++++-
 pkg/trait/lightpb/model.go            |  6 +++++-
 pkg/trait/meterpb/model.go            |  6 +++++-
 pkg/trait/occupancysensorpb/model.go  |  6 +++++-
 pkg/trait/onoffpb/model.go            |  6 +++++-
 pkg/trait/parentpb/model.go           |  6 +++++-
 pkg/trait/presspb/model.go            |  6 +++++-
 pkg/trait/wastepb/model.go            |  6 +++++-
 12 files changed, 70 insertions(+), 14 deletions(-)

diff --git a/pkg/trait/accesspb/model.go b/pkg/trait/accesspb/model.go
index d80e66c..0eb27c9 100644
--- a/pkg/trait/accesspb/model.go
+++ b/pkg/trait/accesspb/model.go
@@ -41,9 +41,13 @@ func (m *Model) PullAccessAttempts(ctx context.Context, opts ...resource.ReadOpt
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.AccessAttempt)
-			send <- PullAccessAttemptsChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullAccessAttemptsChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/airqualitysensorpb/model.go b/pkg/trait/airqualitysensorpb/model.go
index 4903204..cc059c4 100644
--- a/pkg/trait/airqualitysensorpb/model.go
+++ b/pkg/trait/airqualitysensorpb/model.go
@@ -39,9 +39,13 @@ func (m *Model) PullAirQuality(ctx context.Context, opts ...resource.ReadOption)
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.AirQuality)
-			send <- PullAirQualityChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullAirQualityChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/airtemperaturepb/model.go b/pkg/trait/airtemperaturepb/model.go
index bb14527..3f77644 100644
--- a/pkg/trait/airtemperaturepb/model.go
+++ b/pkg/trait/airtemperaturepb/model.go
@@ -39,9 +39,13 @@ func (m *Model) PullAirTemperature(ctx context.Context, opts ...resource.ReadOpt
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.AirTemperature)
-			send <- PullAirTemperatureChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullAirTemperatureChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/electricpb/model.go b/pkg/trait/electricpb/model.go
index 585c87d..0488ccc 100644
--- a/pkg/trait/electricpb/model.go
+++ b/pkg/trait/electricpb/model.go
@@ -78,9 +78,13 @@ func (m *Model) PullDemand(ctx context.Context, opts ...resource.ReadOption) <-c
 		defer close(send)
 		for change := range recv {
 			demand := change.Value.(*traits.ElectricDemand)
-			send <- PullDemandChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullDemandChange{
 				Value:      demand,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
@@ -121,9 +125,13 @@ func (m *Model) PullActiveMode(ctx context.Context, opts ...resource.ReadOption)
 		defer close(send)
 		for change := range recv {
 			activeMode := change.Value.(*traits.ElectricMode)
-			send <- PullActiveModeChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullActiveModeChange{
 				ActiveMode: activeMode,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
@@ -344,7 +352,11 @@ func (m *Model) PullModes(ctx context.Context, opts ...resource.ReadOption) <-ch
 				NewValue:   newValue,
 				OldValue:   oldValue,
 			}
-			send <- pullChange
+			select {
+			case <-ctx.Done():
+				return
+			case send <- pullChange:
+			}
 		}
 	}()
 
diff --git a/pkg/trait/energystoragepb/model.go b/pkg/trait/energystoragepb/model.go
index ef06c0b..095f5fb 100644
--- a/pkg/trait/energystoragepb/model.go
+++ b/pkg/trait/energystoragepb/model.go
@@ -45,9 +45,13 @@ func (m *Model) PullEnergyLevel(ctx context.Context, opts ...resource.ReadOption
 		defer close(send)
 		for change := range recv {
 			demand := change.Value.(*traits.EnergyLevel)
-			send <- PullEnergyLevelChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullEnergyLevelChange{
 				Value:      demand,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/lightpb/model.go b/pkg/trait/lightpb/model.go
index 10c40b6..ff0b583 100644
--- a/pkg/trait/lightpb/model.go
+++ b/pkg/trait/lightpb/model.go
@@ -44,9 +44,13 @@ func (m *Model) PullBrightness(ctx context.Context, opts ...resource.ReadOption)
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.Brightness)
-			send <- PullBrightnessChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullBrightnessChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/meterpb/model.go b/pkg/trait/meterpb/model.go
index bfccd5a..220e3a3 100644
--- a/pkg/trait/meterpb/model.go
+++ b/pkg/trait/meterpb/model.go
@@ -72,9 +72,13 @@ func (m *Model) PullMeterReadings(ctx context.Context, opts ...resource.ReadOpti
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.MeterReading)
-			send <- PullMeterReadingChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullMeterReadingChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/occupancysensorpb/model.go b/pkg/trait/occupancysensorpb/model.go
index 05fca65..77daed9 100644
--- a/pkg/trait/occupancysensorpb/model.go
+++ b/pkg/trait/occupancysensorpb/model.go
@@ -40,9 +40,13 @@ func (m *Model) PullOccupancy(ctx context.Context, opts ...resource.ReadOption)
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.Occupancy)
-			send <- PullOccupancyChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullOccupancyChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/onoffpb/model.go b/pkg/trait/onoffpb/model.go
index 0870db7..e505b3d 100644
--- a/pkg/trait/onoffpb/model.go
+++ b/pkg/trait/onoffpb/model.go
@@ -39,9 +39,13 @@ func (m *Model) PullOnOff(ctx context.Context, opts ...resource.ReadOption) <-ch
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.OnOff)
-			send <- PullOnOffChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullOnOffChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/parentpb/model.go b/pkg/trait/parentpb/model.go
index a7a8c95..041a09f 100644
--- a/pkg/trait/parentpb/model.go
+++ b/pkg/trait/parentpb/model.go
@@ -118,7 +118,11 @@ func (m *Model) PullChildren(ctx context.Context, opts ...resource.ReadOption) <
 	go func() {
 		defer close(out)
 		for change := range changes {
-			out <- childrenChangeToProto(change)
+			select {
+			case <-ctx.Done():
+				return
+			case out <- childrenChangeToProto(change):
+			}
 		}
 	}()
 
diff --git a/pkg/trait/presspb/model.go b/pkg/trait/presspb/model.go
index c025d14..d4599da 100644
--- a/pkg/trait/presspb/model.go
+++ b/pkg/trait/presspb/model.go
@@ -40,10 +40,14 @@ func (m *Model) PullPressedState(ctx context.Context, options ...resource.ReadOp
 		defer close(tx)
 		for change := range rx {
 			value := change.Value.(*traits.PressedState)
-			tx <- PullPressedStateChange{
+			select {
+			case <-ctx.Done():
+				return
+			case tx <- PullPressedStateChange{
 				Value:         value,
 				ChangeTime:    change.ChangeTime,
 				LastSeedValue: change.LastSeedValue,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/wastepb/model.go b/pkg/trait/wastepb/model.go
index 7db9ec5..55eb980 100644
--- a/pkg/trait/wastepb/model.go
+++ b/pkg/trait/wastepb/model.go
@@ -143,7 +143,11 @@ func (m *Model) PullWasteRecords(ctx context.Context, opts ...resource.ReadOptio
 				ChangeTime: wr.WasteCreateTime,
 				Type:       types.ChangeType_ADD,
 			}
-			send <- change
+			select {
+			case <-ctx.Done():
+				return
+			case send <- change:
+			}
 		}
 	}()
 
-- 
2.43.0


From 2543496cc609ebd8f931d7f1ed2e1f1e420b0093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 20/56] fix: vending consumables options configure the
 consumables, not the inventory

---
 pkg/trait/vendingpb/model_opts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/vendingpb/model_opts.go b/pkg/trait/vendingpb/model_opts.go
index f579abc..d1f1421 100644
--- a/pkg/trait/vendingpb/model_opts.go
+++ b/pkg/trait/vendingpb/model_opts.go
@@ -41,7 +41,7 @@ func WithInitialStock(inventory ...*traits.Consumable_Stock) resource.Option {
 // WithConsumablesOption configures the consumables resource of the model.
 func WithConsumablesOption(opts ...resource.Option) resource.Option {
 	return modelOptionFunc(func(args *modelArgs) {
-		args.inventoryOptions = append(args.inventoryOptions, opts...)
+		args.consumableOptions = append(args.consumableOptions, opts...)
 	})
 }
 
-- 
2.43.0


From 0304df9e22eb07947184777bf106407fc1ca0ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 21/56] fix: trait models neither modify messages they
 published nor keep messages of their callers

---
 pkg/trait/enterleavesensorpb/model.go |  1 +
 pkg/trait/lightpb/model.go            |  3 +++
 pkg/trait/metadatapb/model.go         |  5 ++++-
 pkg/trait/openclosepb/model.go        | 10 +++++++---
 pkg/trait/parentpb/model.go           |  2 ++
 pkg/trait/wastepb/model.go            |  3 ++-
 6 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/pkg/trait/enterleavesensorpb/model.go b/pkg/trait/enterleavesensorpb/model.go
index 953c1ec..76cd82f 100644
--- a/pkg/trait/enterleavesensorpb/model.go
+++ b/pkg/trait/enterleavesensorpb/model.go
@@ -70,6 +70,7 @@ func (m *Model) PullEnterLeaveEvents(ctx context.Context, opts ...resource.ReadO
 			val := change.Value.(*traits.EnterLeaveEvent)
 			if change.LastSeedValue {
 				// when sending the initial data (not an update), the occupant and direction should be absent.
+				val = proto.Clone(val).(*traits.EnterLeaveEvent) // the seed is the stored value
 				val.Occupant = nil
 				val.Direction = traits.EnterLeaveEvent_DIRECTION_UNSPECIFIED
 			}
diff --git a/pkg/trait/lightpb/model.go b/pkg/trait/lightpb/model.go
index ff0b583..33a4ca6 100644
--- a/pkg/trait/lightpb/model.go
+++ b/pkg/trait/lightpb/model.go
@@ -4,6 +4,8 @@ import (
 	"context"
 	"time"
 
+	"google.golang.org/protobuf/proto"
+
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
@@ -26,6 +28,7 @@ func (m *Model) GetBrightness(opts ...resource.ReadOption) (*traits.Brightness,
 }
 
 func (m *Model) UpdateBrightness(light *traits.Brightness, opts ...resource.WriteOption) (*traits.Brightness, error) {
+	light = proto.Clone(light).(*traits.Brightness)
 	if m.setLevelFromPreset(light) {
 		opts = append(opts, resource.WithMoreUpdatePaths("level_percent"))
 	}
diff --git a/pkg/trait/metadatapb/model.go b/pkg/trait/metadatapb/model.go
index 89d0dd4..b7d318e 100644
--- a/pkg/trait/metadatapb/model.go
+++ b/pkg/trait/metadatapb/model.go
@@ -111,7 +111,10 @@ func metadataMergeInterceptor(old, new proto.Message) {
 	// so we have to do it ourselves.
 	oldVal := old.(*traits.Metadata)
 	newVal := new.(*traits.Metadata)
-	newVal.Traits = oldVal.Traits
+	newVal.Traits = make([]*traits.TraitMetadata, len(oldVal.Traits))
+	for i, trait := range oldVal.Traits {
+		newVal.Traits[i] = proto.Clone(trait).(*traits.TraitMetadata) // old must not be modified
+	}
 	for _, trait := range cleanTraits {
 		newVal.Traits = mergeTraitMetadata(newVal.Traits, trait)
 	}
diff --git a/pkg/trait/openclosepb/model.go b/pkg/trait/openclosepb/model.go
index 1b8c8a7..68208d0 100644
--- a/pkg/trait/openclosepb/model.go
+++ b/pkg/trait/openclosepb/model.go
@@ -64,13 +64,17 @@ func (m *Model) GetPosition(dir traits.OpenClosePosition_Direction, opts ...reso
 }
 
 func (m *Model) UpdatePositions(positions *traits.OpenClosePositions, opts ...resource.WriteOption) (*traits.OpenClosePositions, error) {
+	states := positions.GetStates()
 	// preset handling
 	if positions.Preset != nil {
 		preset, presetPositions := m.presetForName(positions.Preset.Name)
 		if preset == nil {
 			return nil, status.Errorf(codes.InvalidArgument, "preset %q not found", positions.Preset.Name)
 		}
-		positions.States = presetPositions
+		states = make([]*traits.OpenClosePosition, len(presetPositions))
+		for i, position := range presetPositions {
+			states[i] = proto.Clone(position).(*traits.OpenClosePosition)
+		}
 	}
 
 	writeRequest := resource.ComputeWriteConfig(opts...)
@@ -80,7 +84,7 @@ func (m *Model) UpdatePositions(positions *traits.OpenClosePositions, opts ...re
 	}
 	opts = append(opts, resource.WithCreateIfAbsent())
 
-	for _, state := range positions.States {
+	for _, state := range states {
 		_, err := m.positions.Update(directionToID(state.Direction), state, opts...)
 		if err != nil {
 			return nil, err
@@ -138,7 +142,7 @@ func (m *Model) PullPositions(ctx context.Context, ops ...resource.ReadOption) <
 			positions.Preset, _ = m.presetForValue(positions.States)
 
 			// projection and filtering
-			responseFilter.Filter(positions)
+			positions = responseFilter.FilterClone(positions).(*traits.OpenClosePositions)
 			if eq(last, positions) {
 				continue
 			}
diff --git a/pkg/trait/parentpb/model.go b/pkg/trait/parentpb/model.go
index 041a09f..cb8c0db 100644
--- a/pkg/trait/parentpb/model.go
+++ b/pkg/trait/parentpb/model.go
@@ -147,6 +147,7 @@ func childrenChangeToProto(change *resource.CollectionChange) *traits.PullChildr
 // The has slice should be sorted in ascending order by Trait.Name.
 // The returned slice will be sorted in ascending order by Trait.Name.
 func traitUnion(has []*traits.Trait, more ...trait.Name) []*traits.Trait {
+	has = append([]*traits.Trait(nil), has...) // don't modify the argument
 	// has should be sorted by Trait.Name
 	for _, t := range more {
 		ts := string(t)
@@ -169,6 +170,7 @@ func traitUnion(has []*traits.Trait, more ...trait.Name) []*traits.Trait {
 // The has slice should be sorted in ascending order by Trait.Name.
 // The returned slice will be sorted in ascending order by Trait.Name.
 func traitRemove(has []*traits.Trait, remove ...trait.Name) []*traits.Trait {
+	has = append([]*traits.Trait(nil), has...) // don't modify the argument
 	// has should be sorted by Trait.Name
 	for _, t := range remove {
 		ts := string(t)
diff --git a/pkg/trait/wastepb/model.go b/pkg/trait/wastepb/model.go
index 55eb980..9023fda 100644
--- a/pkg/trait/wastepb/model.go
+++ b/pkg/trait/wastepb/model.go
@@ -7,6 +7,7 @@ import (
 	"sync"
 	"time"
 
+	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/known/timestamppb"
 
 	"github.com/smart-core-os/sc-api/go/traits"
@@ -57,7 +58,7 @@ func (m *Model) AddWasteRecord(wr *traits.WasteRecord, opts ...resource.WriteOpt
 	}
 	m.mu.Lock()
 	defer m.mu.Unlock()
-	m.allWasteRecords = append(m.allWasteRecords, wr)
+	m.allWasteRecords = append(m.allWasteRecords, proto.Clone(wr).(*traits.WasteRecord))
 	return v.(*traits.WasteRecord), nil
 }
 
-- 
2.43.0


From 5fedf5f9bd7635e3f1d8234c537327064952ef98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:31 +0000
Subject: [PATCH 22/56] fix: route GetEnterLeaveEvent and ResetEnterLeaveTotals

The enter leave sensor router wasn't regenerated when these were added to the api: callers got Unimplemented.
---
 pkg/trait/enterleavesensorpb/api_router.pb.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pkg/trait/enterleavesensorpb/api_router.pb.go b/pkg/trait/enterleavesensorpb/api_router.pb.go
index 3745447..aae1c5b 100644
--- a/pkg/trait/enterleavesensorpb/api_router.pb.go
+++ b/pkg/trait/enterleavesensorpb/api_router.pb.go
@@ -137,3 +137,21 @@ func (r *ApiRouter) PullEnterLeaveEvents(request *traits.PullEnterLeaveEventsReq
 		return err
 	}
 }
+
+func (r *ApiRouter) GetEnterLeaveEvent(ctx context.Context, request *traits.GetEnterLeaveEventRequest) (*traits.EnterLeaveEvent, error) {
+	child, err := r.GetEnterLeaveSensorApiClient(request.Name)
+	if err != nil {
+		return nil, err
+	}
+
+	return child.GetEnterLeaveEvent(ctx, request)
+}
+
+func (r *ApiRouter) ResetEnterLeaveTotals(ctx context.Context, request *traits.ResetEnterLeaveTotalsRequest) (*traits.ResetEnterLeaveTotalsResponse, error) {
+	child, err := r.GetEnterLeaveSensorApiClient(request.Name)
+	if err != nil {
+		return nil, err
+	}
+
+	return child.ResetEnterLeaveTotals(ctx, request)
+}
-- 
2.43.0


From f25a21eab7fda22ac60a2a29084a7bc40e9ddca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:36 +0000
Subject: [PATCH 23/56] fix: wrapped connections copy messages and replace
 what's received into

---
 pkg/wrap/stream.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/wrap/stream.go b/pkg/wrap/stream.go
index 39d4121..5ad9d46 100644
--- a/pkg/wrap/stream.go
+++ b/pkg/wrap/stream.go
@@ -96,7 +96,7 @@ func (c *clientStream) SendMsg(m any) error {
 	select {
 	case <-c.ctx.Done():
 		return c.closeErrLocked()
-	case c.clientSend <- m:
+	case c.clientSend <- proto.Clone(m.(proto.Message)):
 		return nil
 	}
 }
@@ -119,7 +119,7 @@ func (c *clientStream) RecvMsg(m any) error {
 		if !ok {
 			return c.closeErrLocked()
 		}
-		return permissiveProtoMerge(m.(proto.Message), val.(proto.Message))
+		return copyMessage(m.(proto.Message), val.(proto.Message))
 	}
 }
 
@@ -159,7 +159,7 @@ func (s *serverStream) SendMsg(m any) error {
 	select {
 	case <-s.ctx.Done():
 		return s.closeErrLocked()
-	case s.serverSend <- m:
+	case s.serverSend <- proto.Clone(m.(proto.Message)):
 		return nil
 	}
 }
@@ -172,7 +172,7 @@ func (s *serverStream) RecvMsg(m any) error {
 		if !ok {
 			return io.EOF
 		}
-		return permissiveProtoMerge(m.(proto.Message), val.(proto.Message))
+		return copyMessage(m.(proto.Message), val.(proto.Message))
 	}
 }
 
@@ -181,6 +181,12 @@ func (s *serverStream) sendHeaderIfNeeded() {
 	_ = s.SendHeader(nil)
 }
 
+// copyMessage replaces the contents of dst with those of src.
+func copyMessage(dst, src proto.Message) error {
+	proto.Reset(dst)
+	return permissiveProtoMerge(dst, src)
+}
+
 // works like proto.Merge but allows messages with different descriptors by performing a marshal/unmarshal
 //
 // This is the recommended way to do it: https://github.com/golang/protobuf/issues/1163#issuecomment-654334690
-- 
2.43.0


From c552302ec8ebb2782d41ec2e1d844ef9508dd2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:38 +0000
Subject: [PATCH 24/56] fix: wrapped connections deliver headers and trailers
 as grpc does

---
 pkg/wrap/stream.go | 54 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 9 deletions(-)

diff --git a/pkg/wrap/stream.go b/pkg/wrap/stream.go
index 5ad9d46..cae12a2 100644
--- a/pkg/wrap/stream.go
+++ b/pkg/wrap/stream.go
@@ -11,19 +11,25 @@ import (
 	"google.golang.org/protobuf/proto"
 )
 
+var errHeadersSent = errors.New("headers already sent")
+
 // ClientServerStream combines both a grpc.ServerStream and grpc.ClientStream
 type ClientServerStream struct {
 	ctx context.Context
 
-	header  metadata.MD
-	headerM sync.Mutex    // guards closing of headerC
+	headerM sync.Mutex    // guards header until headerC is closed, and closing of headerC
+	header  metadata.MD   // no longer written once headerC is closed
 	headerC chan struct{} // closed once calls to clientStream.Header should return
 
 	serverSend chan any
 	clientSend chan any
-	trailer    metadata.MD
-	closed     context.CancelFunc
-	closeErr   error
+
+	trailerM sync.Mutex // guards trailer and done
+	trailer  metadata.MD
+	done     bool // true once Close has been called
+
+	closed   context.CancelFunc
+	closeErr error
 }
 
 func NewClientServerStream(ctx context.Context) *ClientServerStream {
@@ -38,6 +44,11 @@ func NewClientServerStream(ctx context.Context) *ClientServerStream {
 }
 
 func (s *ClientServerStream) Close(err error) {
+	// headers that have been set are sent even if there are no messages
+	s.sendHeaderIfNeeded()
+	s.trailerM.Lock()
+	s.done = true
+	s.trailerM.Unlock()
 	s.closeErr = err
 	close(s.serverSend)
 	s.closed()
@@ -80,6 +91,11 @@ func (c *clientStream) Header() (metadata.MD, error) {
 }
 
 func (c *clientStream) Trailer() metadata.MD {
+	c.trailerM.Lock()
+	defer c.trailerM.Unlock()
+	if !c.done {
+		return nil // trailers are sent when the server has ended the call
+	}
 	return c.trailer
 }
 
@@ -128,17 +144,32 @@ type serverStream struct {
 }
 
 func (s *serverStream) SetHeader(md metadata.MD) error {
+	if len(md) == 0 {
+		return nil
+	}
+	s.headerM.Lock()
+	defer s.headerM.Unlock()
+
+	select {
+	case <-s.headerC:
+		return errHeadersSent
+	default:
+	}
 	s.header = metadata.Join(s.header, md)
 	return nil
 }
 
 func (s *serverStream) SendHeader(md metadata.MD) error {
+	return s.sendHeader(md)
+}
+
+func (s *ClientServerStream) sendHeader(md metadata.MD) error {
 	s.headerM.Lock()
 	defer s.headerM.Unlock()
 
 	select {
 	case <-s.headerC:
-		return errors.New("headers already sent")
+		return errHeadersSent
 	default:
 	}
 	s.header = metadata.Join(s.header, md)
@@ -147,6 +178,11 @@ func (s *serverStream) SendHeader(md metadata.MD) error {
 }
 
 func (s *serverStream) SetTrailer(md metadata.MD) {
+	s.trailerM.Lock()
+	defer s.trailerM.Unlock()
+	if s.done {
+		return
+	}
 	s.trailer = metadata.Join(s.trailer, md)
 }
 
@@ -176,9 +212,9 @@ func (s *serverStream) RecvMsg(m any) error {
 	}
 }
 
-func (s *serverStream) sendHeaderIfNeeded() {
-	// ignore error, SendHeader has no side effects if the headers have already been sent
-	_ = s.SendHeader(nil)
+func (s *ClientServerStream) sendHeaderIfNeeded() {
+	// ignore error, sendHeader has no side effects if the headers have already been sent
+	_ = s.sendHeader(nil)
 }
 
 // copyMessage replaces the contents of dst with those of src.
-- 
2.43.0


From 177466075835278720a854b9e44c4579aacdcf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:40 +0000
Subject: [PATCH 25/56] fix: wrapped calls end as grpc calls do

---
 pkg/wrap/stream.go | 112 +++++++++++++++++++++++++++++++++++++--------
 pkg/wrap/wrap.go   |  26 +++++++++--
 2 files changed, 114 insertions(+), 24 deletions(-)

diff --git a/pkg/wrap/stream.go b/pkg/wrap/stream.go
index cae12a2..a59553f 100644
--- a/pkg/wrap/stream.go
+++ b/pkg/wrap/stream.go
@@ -7,7 +7,9 @@ import (
 	"sync"
 
 	"google.golang.org/grpc"
+	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/metadata"
+	"google.golang.org/grpc/status"
 	"google.golang.org/protobuf/proto"
 )
 
@@ -15,7 +17,10 @@ var errHeadersSent = errors.New("headers already sent")
 
 // ClientServerStream combines both a grpc.ServerStream and grpc.ClientStream
 type ClientServerStream struct {
-	ctx context.Context
+	callerCtx context.Context // the context of the client, done if the client ends the call
+	ctx       context.Context // done once the call has ended for whatever reason
+
+	clientStreams, serverStreams bool // the shape of the call
 
 	headerM sync.Mutex    // guards header until headerC is closed, and closing of headerC
 	header  metadata.MD   // no longer written once headerC is closed
@@ -24,6 +29,9 @@ type ClientServerStream struct {
 	serverSend chan any
 	clientSend chan any
 
+	sendM      sync.Mutex // guards sendClosed
+	sendClosed bool       // true once clientSend is closed
+
 	trailerM sync.Mutex // guards trailer and done
 	trailer  metadata.MD
 	done     bool // true once Close has been called
@@ -35,7 +43,11 @@ type ClientServerStream struct {
 func NewClientServerStream(ctx context.Context) *ClientServerStream {
 	newCtx, closed := context.WithCancel(ctx)
 	return &ClientServerStream{
-		ctx:        newCtx,
+		callerCtx:     ctx,
+		ctx:           newCtx,
+		clientStreams: true,
+		serverStreams: true,
+
 		closed:     closed,
 		headerC:    make(chan struct{}),
 		serverSend: make(chan any),
@@ -43,7 +55,11 @@ func NewClientServerStream(ctx context.Context) *ClientServerStream {
 	}
 }
 
+// Close ends the call with the outcome of the server, unless the client ended it before that.
 func (s *ClientServerStream) Close(err error) {
+	if callerErr := s.callerCtx.Err(); callerErr != nil {
+		err = callerErr
+	}
 	// headers that have been set are sent even if there are no messages
 	s.sendHeaderIfNeeded()
 	s.trailerM.Lock()
@@ -100,7 +116,12 @@ func (c *clientStream) Trailer() metadata.MD {
 }
 
 func (c *clientStream) CloseSend() error {
-	close(c.clientSend)
+	c.sendM.Lock()
+	defer c.sendM.Unlock()
+	if !c.sendClosed {
+		c.sendClosed = true
+		close(c.clientSend)
+	}
 	return nil
 }
 
@@ -109,34 +130,83 @@ func (c *clientStream) Context() context.Context {
 }
 
 func (c *clientStream) SendMsg(m any) error {
+	c.sendM.Lock()
+	sendClosed := c.sendClosed
+	c.sendM.Unlock()
+	if sendClosed {
+		return status.Error(codes.Internal, "SendMsg called after CloseSend")
+	}
+	if c.ctx.Err() != nil {
+		return c.sendErr()
+	}
 	select {
 	case <-c.ctx.Done():
-		return c.closeErrLocked()
+		return c.sendErr()
 	case c.clientSend <- proto.Clone(m.(proto.Message)):
 		return nil
 	}
 }
 
+// sendErr is what SendMsg returns when the call has ended.
+// As with a grpc connection RecvMsg returns the reason, and SendMsg doesn't fail for calls with one request.
+func (c *clientStream) sendErr() error {
+	if !c.clientStreams {
+		return nil
+	}
+	return io.EOF
+}
+
 func (c *clientStream) RecvMsg(m any) error {
+	val, err := c.recv()
+	if err != nil {
+		return err
+	}
+	if err := copyMessage(m.(proto.Message), val.(proto.Message)); err != nil {
+		return err
+	}
+	if c.serverStreams {
+		return nil
+	}
+	// there are no other messages, and the outcome of the call isn't known until the server has returned
+	switch _, err := c.recv(); err {
+	case nil:
+		c.closed()
+		return status.Error(codes.Internal, "cardinality violation: more than one response")
+	case io.EOF:
+		return nil
+	default:
+		return err
+	}
+}
+
+func (c *clientStream) recv() (any, error) {
+	if c.ctx.Err() != nil {
+		return nil, c.recvErr()
+	}
 	select {
-	case <-c.Context().Done():
-		// closeErr may or may not be available depending on why the context has ended
-		//  1. if c.closed() was called by c.Close(...), then c.closeErr will be available
-		//  2. if the parent context was cancelled, then c.closeErr may not be available
-		select {
-		case _, ok := <-c.serverSend:
-			if !ok {
-				return c.closeErrLocked()
-			}
-		default:
-		}
-		return c.Context().Err()
+	case <-c.ctx.Done():
+		return nil, c.recvErr()
 	case val, ok := <-c.serverSend:
+		if !ok {
+			return nil, c.closeErrLocked()
+		}
+		return val, nil
+	}
+}
+
+// recvErr is the outcome of the call once c.ctx is done.
+func (c *clientStream) recvErr() error {
+	// closeErr may or may not be available depending on why the context has ended
+	//  1. if c.closed() was called by c.Close(...), then c.closeErr will be available
+	//  2. if the parent context was cancelled, then c.closeErr may not be available
+	select {
+	case _, ok := <-c.serverSend:
 		if !ok {
 			return c.closeErrLocked()
 		}
-		return copyMessage(m.(proto.Message), val.(proto.Message))
+	default:
 	}
+	return c.ctx.Err()
 }
 
 type serverStream struct {
@@ -194,7 +264,7 @@ func (s *serverStream) SendMsg(m any) error {
 	s.sendHeaderIfNeeded()
 	select {
 	case <-s.ctx.Done():
-		return s.closeErrLocked()
+		return status.FromContextError(s.ctx.Err()).Err()
 	case s.serverSend <- proto.Clone(m.(proto.Message)):
 		return nil
 	}
@@ -203,9 +273,13 @@ func (s *serverStream) SendMsg(m any) error {
 func (s *serverStream) RecvMsg(m any) error {
 	select {
 	case <-s.Context().Done():
-		return s.closeErrLocked()
+		// not io.EOF: the client hasn't finished sending
+		return status.FromContextError(s.ctx.Err()).Err()
 	case val, ok := <-s.clientSend:
 		if !ok {
+			if err := s.ctx.Err(); err != nil {
+				return status.FromContextError(err).Err()
+			}
 			return io.EOF
 		}
 		return copyMessage(m.(proto.Message), val.(proto.Message))
diff --git a/pkg/wrap/wrap.go b/pkg/wrap/wrap.go
index c4cd005..8c3e893 100644
--- a/pkg/wrap/wrap.go
+++ b/pkg/wrap/wrap.go
@@ -54,16 +54,19 @@ type wrapper struct {
 func (w *wrapper) Invoke(ctx context.Context, method string, args any, reply any, opts ...grpc.CallOption) error {
 	matched, ok := w.methods[method]
 	if !ok {
+		if _, ok := w.streams[method]; ok {
+			return ErrMethodShape
+		}
 		return ErrMethodNotFound
 	}
 
-	ctx, clientServerStream, ss, cs := w.startStream(ctx, method)
+	ctx, clientServerStream, ss, cs := w.startStream(ctx, method, false, false)
 	go func() {
 		res, err := matched.Handler(w.srv, ctx, func(dst any) error {
 			return ss.RecvMsg(dst)
 		}, nil)
 		if err != nil {
-			clientServerStream.Close(err)
+			clientServerStream.Close(serverErr(err))
 			return
 		}
 		err = ss.SendMsg(res)
@@ -101,16 +104,28 @@ func (w *wrapper) NewStream(ctx context.Context, desc *grpc.StreamDesc, method s
 		return nil, ErrMethodShape
 	}
 
-	ctx, clientServerStream, ss, cs := w.startStream(ctx, method)
+	_, clientServerStream, ss, cs := w.startStream(ctx, method, desc.ClientStreams, desc.ServerStreams)
 	go func() {
 		err := matched.Handler(w.srv, ss)
-		clientServerStream.Close(err)
+		clientServerStream.Close(serverErr(err))
 	}()
 
 	return cs, nil
 }
 
-func (w *wrapper) startStream(ctx context.Context, method string) (context.Context, *ClientServerStream, grpc.ServerStream, grpc.ClientStream) {
+// serverErr converts an error returned by the server to what a client sees of it.
+// In particular an io.EOF or context error of the server's own isn't taken for the end of the stream or of the client's context.
+func serverErr(err error) error {
+	if err == nil {
+		return nil
+	}
+	if _, ok := status.FromError(err); ok {
+		return err
+	}
+	return status.FromContextError(err).Err()
+}
+
+func (w *wrapper) startStream(ctx context.Context, method string, clientStreams, serverStreams bool) (context.Context, *ClientServerStream, grpc.ServerStream, grpc.ClientStream) {
 	// convert client's outgoing metadata to server's incoming metadata
 	md, _ := metadata.FromOutgoingContext(ctx)
 	md = cloneMD(md) // to prevent client from concurrently modifying the metadata
@@ -121,6 +136,7 @@ func (w *wrapper) startStream(ctx context.Context, method string) (context.Conte
 	ctx = grpc.NewContextWithServerTransportStream(ctx, sts)
 
 	clientServerStream := NewClientServerStream(ctx)
+	clientServerStream.clientStreams, clientServerStream.serverStreams = clientStreams, serverStreams
 	ss := clientServerStream.Server()
 	sts.ss = ss
 	cs := clientServerStream.Client()
-- 
2.43.0


From fe69b93ac2af0d49c405fc61a886e7d3f6952ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 26/56] fix: electric models don't share a random source

---
 pkg/trait/electricpb/model_opts.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/electricpb/model_opts.go b/pkg/trait/electricpb/model_opts.go
index b102855..23b73d6 100644
--- a/pkg/trait/electricpb/model_opts.go
+++ b/pkg/trait/electricpb/model_opts.go
@@ -22,7 +22,6 @@ var DefaultModelOptions = []resource.Option{
 	WithActiveModeOption(resource.WithNoDuplicates()),
 	WithModeOption(resource.WithNoDuplicates()),
 	WithClock(clock.Real()),
-	WithRNG(rand.New(rand.NewSource(rand.Int63()))),
 }
 var defaultInitialVoltage float32 = 240
 
@@ -104,6 +103,8 @@ func WithRNG(rng *rand.Rand) resource.Option {
 func calcModelArgs(opts ...resource.Option) modelArgs {
 	args := new(modelArgs)
 	args.apply(DefaultModelOptions...)
+	// not part of DefaultModelOptions because rand.Rand can't be used by more than one model
+	args.apply(WithRNG(rand.New(rand.NewSource(rand.Int63()))))
 	args.apply(opts...)
 	return *args
 }
-- 
2.43.0


From 2929f1516bbb4d80cb4d311aa8bd75215c7e18a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 27/56] fix: concurrent child trait changes don't panic

---
 pkg/trait/parentpb/model.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/parentpb/model.go b/pkg/trait/parentpb/model.go
index cb8c0db..4c4bbbd 100644
--- a/pkg/trait/parentpb/model.go
+++ b/pkg/trait/parentpb/model.go
@@ -65,7 +65,7 @@ func (m *Model) RemoveChildByName(name string, opts ...resource.WriteOption) (*t
 // If no child with the given name is already know, one will be created.
 // If a child is already known with the given name, its traits will be unioned with the given trait names.
 func (m *Model) AddChildTrait(name string, traitName ...trait.Name) (child *traits.Child, created bool) {
-	msg, err := m.children.Update(name, &traits.Child{Name: name},
+	msg, err := m.updateChild(name, func() { created = false },
 		resource.WithCreateIfAbsent(),
 		resource.WithCreatedCallback(func() {
 			created = true
@@ -84,7 +84,7 @@ func (m *Model) AddChildTrait(name string, traitName ...trait.Name) (child *trai
 // RemoveChildTrait ensures that the named child no longer mentions they support the given trait names.
 // If no child exists with the given name then nil will be returned.
 func (m *Model) RemoveChildTrait(name string, traitName ...trait.Name) *traits.Child {
-	msg, err := m.children.Update(name, &traits.Child{Name: name},
+	msg, err := m.updateChild(name, func() {},
 		resource.InterceptBefore(func(old, value proto.Message) {
 			oldChild := old.(*traits.Child)
 			newChild := value.(*traits.Child)
@@ -100,6 +100,18 @@ func (m *Model) RemoveChildTrait(name string, traitName ...trait.Name) *traits.C
 	return msg.(*traits.Child)
 }
 
+// updateChild updates the named child, trying again when it's changed concurrently.
+// begin is called at the beginning of each attempt.
+func (m *Model) updateChild(name string, begin func(), opts ...resource.WriteOption) (proto.Message, error) {
+	for {
+		begin()
+		msg, err := m.children.Update(name, &traits.Child{Name: name}, opts...)
+		if status.Code(err) != codes.Aborted {
+			return msg, err
+		}
+	}
+}
+
 // ListChildren returns a slice of all known Child instances.
 func (m *Model) ListChildren() []*traits.Child {
 	msgs := m.children.List()
-- 
2.43.0


From b15a26b35c18cddff889d3292b5e7afdd53214fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 28/56] fix: answer negative page sizes with InvalidArgument
 instead of panicking

---
 pkg/trait/electricpb/model_server.go    |  6 ++++--
 pkg/trait/electricpb/pages.go           | 11 +++++++----
 pkg/trait/hailpb/model_server.go        |  6 ++++--
 pkg/trait/hailpb/pages.go               | 11 +++++++----
 pkg/trait/parentpb/model_server.go      |  6 ++++--
 pkg/trait/parentpb/pages.go             | 11 +++++++----
 pkg/trait/publicationpb/model_server.go |  6 ++++--
 pkg/trait/publicationpb/pages.go        | 11 +++++++----
 pkg/trait/vendingpb/model_server.go     | 12 ++++++++----
 pkg/trait/vendingpb/pages.go            | 11 +++++++----
 pkg/trait/wastepb/model_server.go       |  6 +++++-
 11 files changed, 64 insertions(+), 33 deletions(-)

diff --git a/pkg/trait/electricpb/model_server.go b/pkg/trait/electricpb/model_server.go
index 924df5e..6260275 100644
--- a/pkg/trait/electricpb/model_server.go
+++ b/pkg/trait/electricpb/model_server.go
@@ -104,7 +104,10 @@ func (s *ModelServer) ListModes(_ context.Context, request *traits.ListModesRequ
 	}
 
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
-	pageSize := capPageSize(int(request.GetPageSize()))
+	pageSize, err := capPageSize(int(request.GetPageSize()))
+	if err != nil {
+		return nil, err
+	}
 
 	sortedModes := s.model.Modes(resource.WithReadMask(request.ReadMask))
 	nextIndex := 0
@@ -127,7 +130,6 @@ func (s *ModelServer) ListModes(_ context.Context, request *traits.ListModesRequ
 		}
 	}
 
-	var err error
 	result.NextPageToken, err = encodePageToken(pageToken)
 	if err != nil {
 		return nil, err
diff --git a/pkg/trait/electricpb/pages.go b/pkg/trait/electricpb/pages.go
index 0cad80e..ddf6a45 100644
--- a/pkg/trait/electricpb/pages.go
+++ b/pkg/trait/electricpb/pages.go
@@ -15,14 +15,17 @@ const (
 	maxPageSize     = 1000
 )
 
-func capPageSize(pageSize int) int {
+func capPageSize(pageSize int) (int, error) {
+	if pageSize < 0 {
+		return 0, status.Errorf(codes.InvalidArgument, "negative page size: %v", pageSize)
+	}
 	if pageSize == 0 {
-		return defaultPageSize
+		return defaultPageSize, nil
 	}
 	if pageSize > maxPageSize {
-		return maxPageSize
+		return maxPageSize, nil
 	}
-	return pageSize
+	return pageSize, nil
 }
 
 func decodePageToken(token string, pageToken *types.PageToken) error {
diff --git a/pkg/trait/hailpb/model_server.go b/pkg/trait/hailpb/model_server.go
index 663e16f..92c3007 100644
--- a/pkg/trait/hailpb/model_server.go
+++ b/pkg/trait/hailpb/model_server.go
@@ -76,7 +76,10 @@ func (m *ModelServer) ListHails(_ context.Context, request *traits.ListHailsRequ
 	}
 
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
-	pageSize := capPageSize(int(request.GetPageSize()))
+	pageSize, err := capPageSize(int(request.GetPageSize()))
+	if err != nil {
+		return nil, err
+	}
 
 	sortedItems := m.model.ListHails(resource.WithReadMask(request.ReadMask))
 	nextIndex := 0
@@ -99,7 +102,6 @@ func (m *ModelServer) ListHails(_ context.Context, request *traits.ListHailsRequ
 		}
 	}
 
-	var err error
 	result.NextPageToken, err = encodePageToken(pageToken)
 	if err != nil {
 		return nil, err
diff --git a/pkg/trait/hailpb/pages.go b/pkg/trait/hailpb/pages.go
index 4b8b484..381dcce 100644
--- a/pkg/trait/hailpb/pages.go
+++ b/pkg/trait/hailpb/pages.go
@@ -15,14 +15,17 @@ const (
 	maxPageSize     = 1000
 )
 
-func capPageSize(pageSize int) int {
+func capPageSize(pageSize int) (int, error) {
+	if pageSize < 0 {
+		return 0, status.Errorf(codes.InvalidArgument, "negative page size: %v", pageSize)
+	}
 	if pageSize == 0 {
-		return defaultPageSize
+		return defaultPageSize, nil
 	}
 	if pageSize > maxPageSize {
-		return maxPageSize
+		return maxPageSize, nil
 	}
-	return pageSize
+	return pageSize, nil
 }
 
 func decodePageToken(token string, pageToken *types.PageToken) error {
diff --git a/pkg/trait/parentpb/model_server.go b/pkg/trait/parentpb/model_server.go
index f03d886..8f798d4 100644
--- a/pkg/trait/parentpb/model_server.go
+++ b/pkg/trait/parentpb/model_server.go
@@ -31,7 +31,10 @@ func (s *ModelServer) ListChildren(_ context.Context, request *traits.ListChildr
 	}
 
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
-	pageSize := capPageSize(int(request.GetPageSize()))
+	pageSize, err := capPageSize(int(request.GetPageSize()))
+	if err != nil {
+		return nil, err
+	}
 
 	all := s.model.ListChildren()
 	sort.Slice(all, func(i, j int) bool {
@@ -61,7 +64,6 @@ func (s *ModelServer) ListChildren(_ context.Context, request *traits.ListChildr
 		}
 	}
 
-	var err error
 	result.NextPageToken, err = encodePageToken(pageToken)
 	if err != nil {
 		return nil, err
diff --git a/pkg/trait/parentpb/pages.go b/pkg/trait/parentpb/pages.go
index d66501e..dea90e3 100644
--- a/pkg/trait/parentpb/pages.go
+++ b/pkg/trait/parentpb/pages.go
@@ -15,14 +15,17 @@ const (
 	maxPageSize     = 1000
 )
 
-func capPageSize(pageSize int) int {
+func capPageSize(pageSize int) (int, error) {
+	if pageSize < 0 {
+		return 0, status.Errorf(codes.InvalidArgument, "negative page size: %v", pageSize)
+	}
 	if pageSize == 0 {
-		return defaultPageSize
+		return defaultPageSize, nil
 	}
 	if pageSize > maxPageSize {
-		return maxPageSize
+		return maxPageSize, nil
 	}
-	return pageSize
+	return pageSize, nil
 }
 
 func decodePageToken(token string, pageToken *types.PageToken) error {
diff --git a/pkg/trait/publicationpb/model_server.go b/pkg/trait/publicationpb/model_server.go
index 09e24e1..001f2b1 100644
--- a/pkg/trait/publicationpb/model_server.go
+++ b/pkg/trait/publicationpb/model_server.go
@@ -105,7 +105,10 @@ func (m *ModelServer) ListPublications(_ context.Context, request *traits.ListPu
 	}
 
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
-	pageSize := capPageSize(int(request.GetPageSize()))
+	pageSize, err := capPageSize(int(request.GetPageSize()))
+	if err != nil {
+		return nil, err
+	}
 
 	sortedItems := m.model.ListPublications(resource.WithReadMask(request.ReadMask))
 	nextIndex := 0
@@ -128,7 +131,6 @@ func (m *ModelServer) ListPublications(_ context.Context, request *traits.ListPu
 		}
 	}
 
-	var err error
 	result.NextPageToken, err = encodePageToken(pageToken)
 	if err != nil {
 		return nil, err
diff --git a/pkg/trait/publicationpb/pages.go b/pkg/trait/publicationpb/pages.go
index bb56648..a44f7a9 100644
--- a/pkg/trait/publicationpb/pages.go
+++ b/pkg/trait/publicationpb/pages.go
@@ -15,14 +15,17 @@ const (
 	maxPageSize     = 1000
 )
 
-func capPageSize(pageSize int) int {
+func capPageSize(pageSize int) (int, error) {
+	if pageSize < 0 {
+		return 0, status.Errorf(codes.InvalidArgument, "negative page size: %v", pageSize)
+	}
 	if pageSize == 0 {
-		return defaultPageSize
+		return defaultPageSize, nil
 	}
 	if pageSize > maxPageSize {
-		return maxPageSize
+		return maxPageSize, nil
 	}
-	return pageSize
+	return pageSize, nil
 }
 
 func decodePageToken(token string, pageToken *types.PageToken) error {
diff --git a/pkg/trait/vendingpb/model_server.go b/pkg/trait/vendingpb/model_server.go
index 4e5fb8f..bdd4d1a 100644
--- a/pkg/trait/vendingpb/model_server.go
+++ b/pkg/trait/vendingpb/model_server.go
@@ -39,7 +39,10 @@ func (m *ModelServer) ListConsumables(_ context.Context, request *traits.ListCon
 	}
 
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
-	pageSize := capPageSize(int(request.GetPageSize()))
+	pageSize, err := capPageSize(int(request.GetPageSize()))
+	if err != nil {
+		return nil, err
+	}
 
 	sortedItems := m.model.ListConsumables(resource.WithReadMask(request.ReadMask))
 	nextIndex := 0
@@ -62,7 +65,6 @@ func (m *ModelServer) ListConsumables(_ context.Context, request *traits.ListCon
 		}
 	}
 
-	var err error
 	result.NextPageToken, err = encodePageToken(pageToken)
 	if err != nil {
 		return nil, err
@@ -117,7 +119,10 @@ func (m *ModelServer) ListInventory(_ context.Context, request *traits.ListInven
 	}
 
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
-	pageSize := capPageSize(int(request.GetPageSize()))
+	pageSize, err := capPageSize(int(request.GetPageSize()))
+	if err != nil {
+		return nil, err
+	}
 
 	sortedItems := m.model.ListInventory(resource.WithReadMask(request.ReadMask))
 	nextIndex := 0
@@ -140,7 +145,6 @@ func (m *ModelServer) ListInventory(_ context.Context, request *traits.ListInven
 		}
 	}
 
-	var err error
 	result.NextPageToken, err = encodePageToken(pageToken)
 	if err != nil {
 		return nil, err
diff --git a/pkg/trait/vendingpb/pages.go b/pkg/trait/vendingpb/pages.go
index 34f0695..ba825d7 100644
--- a/pkg/trait/vendingpb/pages.go
+++ b/pkg/trait/vendingpb/pages.go
@@ -15,14 +15,17 @@ const (
 	maxPageSize     = 1000
 )
 
-func capPageSize(pageSize int) int {
+func capPageSize(pageSize int) (int, error) {
+	if pageSize < 0 {
+		return 0, status.Errorf(codes.InvalidArgument, "negative page size: %v", pageSize)
+	}
 	if pageSize == 0 {
-		return defaultPageSize
+		return defaultPageSize, nil
 	}
 	if pageSize > maxPageSize {
-		return maxPageSize
+		return maxPageSize, nil
 	}
-	return pageSize
+	return pageSize, nil
 }
 
 func decodePageToken(token string, pageToken *types.PageToken) error {
diff --git a/pkg/trait/wastepb/model_server.go b/pkg/trait/wastepb/model_server.go
index d94fa22..45cd6a2 100644
--- a/pkg/trait/wastepb/model_server.go
+++ b/pkg/trait/wastepb/model_server.go
@@ -5,6 +5,8 @@ import (
 	"strconv"
 
 	"google.golang.org/grpc"
+	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/status"
 
 	"github.com/smart-core-os/sc-api/go/traits"
 )
@@ -41,7 +43,9 @@ func (m *ModelServer) ListWasteRecords(ctx context.Context, req *traits.ListWast
 	}
 
 	count := req.PageSize
-	if count == 0 {
+	if count < 0 {
+		return nil, status.Errorf(codes.InvalidArgument, "negative page size: %v", count)
+	} else if count == 0 {
 		count = 50
 	} else if count > 1000 {
 		count = 1000
-- 
2.43.0


From 78f03bc50c748d59a746bf8ff1e4ab591c29357a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 29/56] fix: reject waste record page tokens outside the list
 instead of panicking

---
 pkg/trait/wastepb/model_server.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/trait/wastepb/model_server.go b/pkg/trait/wastepb/model_server.go
index 45cd6a2..1a202a7 100644
--- a/pkg/trait/wastepb/model_server.go
+++ b/pkg/trait/wastepb/model_server.go
@@ -35,11 +35,14 @@ func (m *ModelServer) ListWasteRecords(ctx context.Context, req *traits.ListWast
 	pageToken := req.GetPageToken()
 	startIndex := m.model.GetWasteRecordCount()
 	if pageToken != "" {
-		_, err := strconv.Atoi(req.GetPageToken())
+		index, err := strconv.Atoi(pageToken)
 		if err != nil {
-			return nil, err
+			return nil, status.Errorf(codes.InvalidArgument, "bad page token: %v", err)
 		}
-		startIndex, _ = strconv.Atoi(pageToken)
+		if index < 0 || index > startIndex {
+			return nil, status.Errorf(codes.InvalidArgument, "bad page token: %v", index)
+		}
+		startIndex = index
 	}
 
 	count := req.PageSize
-- 
2.43.0


From 71191c773068ae8560f413011392db5bfdd576d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 30/56] fix: page lists by key when the read mask leaves the
 key out

---
 pkg/trait/electricpb/model_server.go    |  9 ++++++++-
 pkg/trait/hailpb/model_server.go        |  9 ++++++++-
 pkg/trait/publicationpb/model_server.go |  9 ++++++++-
 pkg/trait/vendingpb/model_server.go     | 17 +++++++++++++++--
 4 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/pkg/trait/electricpb/model_server.go b/pkg/trait/electricpb/model_server.go
index 6260275..5dba612 100644
--- a/pkg/trait/electricpb/model_server.go
+++ b/pkg/trait/electricpb/model_server.go
@@ -12,6 +12,7 @@ import (
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-api/go/types"
 
+	"github.com/smart-core-os/sc-golang/pkg/masks"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
 
@@ -109,7 +110,7 @@ func (s *ModelServer) ListModes(_ context.Context, request *traits.ListModesRequ
 		return nil, err
 	}
 
-	sortedModes := s.model.Modes(resource.WithReadMask(request.ReadMask))
+	sortedModes := s.model.Modes()
 	nextIndex := 0
 	if lastKey != "" {
 		nextIndex = sort.Search(len(sortedModes), func(i int) bool {
@@ -135,6 +136,12 @@ func (s *ModelServer) ListModes(_ context.Context, request *traits.ListModesRequ
 		return nil, err
 	}
 	result.Modes = sortedModes[nextIndex:upperBound]
+
+	// apply read mask, after paging as the key might not be part of it
+	mask := masks.NewResponseFilter(masks.WithFieldMask(request.ReadMask))
+	for i, item := range result.Modes {
+		result.Modes[i] = mask.FilterClone(item).(*traits.ElectricMode)
+	}
 	return result, nil
 }
 
diff --git a/pkg/trait/hailpb/model_server.go b/pkg/trait/hailpb/model_server.go
index 92c3007..2885696 100644
--- a/pkg/trait/hailpb/model_server.go
+++ b/pkg/trait/hailpb/model_server.go
@@ -11,6 +11,7 @@ import (
 
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-api/go/types"
+	"github.com/smart-core-os/sc-golang/pkg/masks"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
 
@@ -81,7 +82,7 @@ func (m *ModelServer) ListHails(_ context.Context, request *traits.ListHailsRequ
 		return nil, err
 	}
 
-	sortedItems := m.model.ListHails(resource.WithReadMask(request.ReadMask))
+	sortedItems := m.model.ListHails()
 	nextIndex := 0
 	if lastKey != "" {
 		nextIndex = sort.Search(len(sortedItems), func(i int) bool {
@@ -107,6 +108,12 @@ func (m *ModelServer) ListHails(_ context.Context, request *traits.ListHailsRequ
 		return nil, err
 	}
 	result.Hails = sortedItems[nextIndex:upperBound]
+
+	// apply read mask, after paging as the key might not be part of it
+	mask := masks.NewResponseFilter(masks.WithFieldMask(request.ReadMask))
+	for i, item := range result.Hails {
+		result.Hails[i] = mask.FilterClone(item).(*traits.Hail)
+	}
 	return result, nil
 }
 
diff --git a/pkg/trait/publicationpb/model_server.go b/pkg/trait/publicationpb/model_server.go
index 001f2b1..da8a273 100644
--- a/pkg/trait/publicationpb/model_server.go
+++ b/pkg/trait/publicationpb/model_server.go
@@ -12,6 +12,7 @@ import (
 
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-api/go/types"
+	"github.com/smart-core-os/sc-golang/pkg/masks"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
 
@@ -110,7 +111,7 @@ func (m *ModelServer) ListPublications(_ context.Context, request *traits.ListPu
 		return nil, err
 	}
 
-	sortedItems := m.model.ListPublications(resource.WithReadMask(request.ReadMask))
+	sortedItems := m.model.ListPublications()
 	nextIndex := 0
 	if lastKey != "" {
 		nextIndex = sort.Search(len(sortedItems), func(i int) bool {
@@ -136,6 +137,12 @@ func (m *ModelServer) ListPublications(_ context.Context, request *traits.ListPu
 		return nil, err
 	}
 	result.Publications = sortedItems[nextIndex:upperBound]
+
+	// apply read mask, after paging as the key might not be part of it
+	mask := masks.NewResponseFilter(masks.WithFieldMask(request.ReadMask))
+	for i, item := range result.Publications {
+		result.Publications[i] = mask.FilterClone(item).(*traits.Publication)
+	}
 	return result, nil
 }
 
diff --git a/pkg/trait/vendingpb/model_server.go b/pkg/trait/vendingpb/model_server.go
index bdd4d1a..c88d1a5 100644
--- a/pkg/trait/vendingpb/model_server.go
+++ b/pkg/trait/vendingpb/model_server.go
@@ -11,6 +11,7 @@ import (
 
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-api/go/types"
+	"github.com/smart-core-os/sc-golang/pkg/masks"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
 
@@ -44,7 +45,7 @@ func (m *ModelServer) ListConsumables(_ context.Context, request *traits.ListCon
 		return nil, err
 	}
 
-	sortedItems := m.model.ListConsumables(resource.WithReadMask(request.ReadMask))
+	sortedItems := m.model.ListConsumables()
 	nextIndex := 0
 	if lastKey != "" {
 		nextIndex = sort.Search(len(sortedItems), func(i int) bool {
@@ -70,6 +71,12 @@ func (m *ModelServer) ListConsumables(_ context.Context, request *traits.ListCon
 		return nil, err
 	}
 	result.Consumables = sortedItems[nextIndex:upperBound]
+
+	// apply read mask, after paging as the key might not be part of it
+	mask := masks.NewResponseFilter(masks.WithFieldMask(request.ReadMask))
+	for i, item := range result.Consumables {
+		result.Consumables[i] = mask.FilterClone(item).(*traits.Consumable)
+	}
 	return result, nil
 }
 
@@ -124,7 +131,7 @@ func (m *ModelServer) ListInventory(_ context.Context, request *traits.ListInven
 		return nil, err
 	}
 
-	sortedItems := m.model.ListInventory(resource.WithReadMask(request.ReadMask))
+	sortedItems := m.model.ListInventory()
 	nextIndex := 0
 	if lastKey != "" {
 		nextIndex = sort.Search(len(sortedItems), func(i int) bool {
@@ -150,6 +157,12 @@ func (m *ModelServer) ListInventory(_ context.Context, request *traits.ListInven
 		return nil, err
 	}
 	result.Inventory = sortedItems[nextIndex:upperBound]
+
+	// apply read mask, after paging as the key might not be part of it
+	mask := masks.NewResponseFilter(masks.WithFieldMask(request.ReadMask))
+	for i, item := range result.Inventory {
+		result.Inventory[i] = mask.FilterClone(item).(*traits.Consumable_Stock)
+	}
 	return result, nil
 }
 
-- 
2.43.0


From 83efcd93d10f27dd5381138105d34b2556618449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 31/56] fix: tell a page token naming the empty key from none,
 reject tokens naming no key

---
 pkg/trait/electricpb/model_server.go    | 2 +-
 pkg/trait/electricpb/pages.go           | 3 +++
 pkg/trait/hailpb/model_server.go        | 2 +-
 pkg/trait/hailpb/pages.go               | 3 +++
 pkg/trait/parentpb/model_server.go      | 2 +-
 pkg/trait/parentpb/pages.go             | 3 +++
 pkg/trait/publicationpb/model_server.go | 2 +-
 pkg/trait/publicationpb/pages.go        | 3 +++
 pkg/trait/vendingpb/model_server.go     | 4 ++--
 pkg/trait/vendingpb/pages.go            | 3 +++
 10 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/pkg/trait/electricpb/model_server.go b/pkg/trait/electricpb/model_server.go
index 5dba612..548b528 100644
--- a/pkg/trait/electricpb/model_server.go
+++ b/pkg/trait/electricpb/model_server.go
@@ -112,7 +112,7 @@ func (s *ModelServer) ListModes(_ context.Context, request *traits.ListModesRequ
 
 	sortedModes := s.model.Modes()
 	nextIndex := 0
-	if lastKey != "" {
+	if request.GetPageToken() != "" {
 		nextIndex = sort.Search(len(sortedModes), func(i int) bool {
 			return sortedModes[i].Id > lastKey
 		})
diff --git a/pkg/trait/electricpb/pages.go b/pkg/trait/electricpb/pages.go
index ddf6a45..06eac33 100644
--- a/pkg/trait/electricpb/pages.go
+++ b/pkg/trait/electricpb/pages.go
@@ -37,6 +37,9 @@ func decodePageToken(token string, pageToken *types.PageToken) error {
 		if err := proto.Unmarshal(tokenBytes, pageToken); err != nil {
 			return status.Errorf(codes.InvalidArgument, "bad page token: %v", err)
 		}
+		if _, ok := pageToken.PageStart.(*types.PageToken_LastResourceName); !ok {
+			return status.Error(codes.InvalidArgument, "bad page token: no last resource name")
+		}
 	}
 	return nil
 }
diff --git a/pkg/trait/hailpb/model_server.go b/pkg/trait/hailpb/model_server.go
index 2885696..ba05019 100644
--- a/pkg/trait/hailpb/model_server.go
+++ b/pkg/trait/hailpb/model_server.go
@@ -84,7 +84,7 @@ func (m *ModelServer) ListHails(_ context.Context, request *traits.ListHailsRequ
 
 	sortedItems := m.model.ListHails()
 	nextIndex := 0
-	if lastKey != "" {
+	if request.GetPageToken() != "" {
 		nextIndex = sort.Search(len(sortedItems), func(i int) bool {
 			return sortedItems[i].Id > lastKey
 		})
diff --git a/pkg/trait/hailpb/pages.go b/pkg/trait/hailpb/pages.go
index 381dcce..03e4846 100644
--- a/pkg/trait/hailpb/pages.go
+++ b/pkg/trait/hailpb/pages.go
@@ -37,6 +37,9 @@ func decodePageToken(token string, pageToken *types.PageToken) error {
 		if err := proto.Unmarshal(tokenBytes, pageToken); err != nil {
 			return status.Errorf(codes.InvalidArgument, "bad page token: %v", err)
 		}
+		if _, ok := pageToken.PageStart.(*types.PageToken_LastResourceName); !ok {
+			return status.Error(codes.InvalidArgument, "bad page token: no last resource name")
+		}
 	}
 	return nil
 }
diff --git a/pkg/trait/parentpb/model_server.go b/pkg/trait/parentpb/model_server.go
index 8f798d4..ebc0b42 100644
--- a/pkg/trait/parentpb/model_server.go
+++ b/pkg/trait/parentpb/model_server.go
@@ -42,7 +42,7 @@ func (s *ModelServer) ListChildren(_ context.Context, request *traits.ListChildr
 	})
 
 	nextIndex := 0
-	if lastKey != "" {
+	if request.GetPageToken() != "" {
 		nextIndex = sort.Search(len(all), func(i int) bool {
 			return all[i].Name >= lastKey
 		})
diff --git a/pkg/trait/parentpb/pages.go b/pkg/trait/parentpb/pages.go
index dea90e3..d30c61d 100644
--- a/pkg/trait/parentpb/pages.go
+++ b/pkg/trait/parentpb/pages.go
@@ -37,6 +37,9 @@ func decodePageToken(token string, pageToken *types.PageToken) error {
 		if err := proto.Unmarshal(tokenBytes, pageToken); err != nil {
 			return status.Errorf(codes.InvalidArgument, "bad page token: %v", err)
 		}
+		if _, ok := pageToken.PageStart.(*types.PageToken_LastResourceName); !ok {
+			return status.Error(codes.InvalidArgument, "bad page token: no last resource name")
+		}
 	}
 	return nil
 }
diff --git a/pkg/trait/publicationpb/model_server.go b/pkg/trait/publicationpb/model_server.go
index da8a273..6c55a1d 100644
--- a/pkg/trait/publicationpb/model_server.go
+++ b/pkg/trait/publicationpb/model_server.go
@@ -113,7 +113,7 @@ func (m *ModelServer) ListPublications(_ context.Context, request *traits.ListPu
 
 	sortedItems := m.model.ListPublications()
 	nextIndex := 0
-	if lastKey != "" {
+	if request.GetPageToken() != "" {
 		nextIndex = sort.Search(len(sortedItems), func(i int) bool {
 			return sortedItems[i].Id > lastKey
 		})
diff --git a/pkg/trait/publicationpb/pages.go b/pkg/trait/publicationpb/pages.go
index a44f7a9..f6072d9 100644
--- a/pkg/trait/publicationpb/pages.go
+++ b/pkg/trait/publicationpb/pages.go
@@ -37,6 +37,9 @@ func decodePageToken(token string, pageToken *types.PageToken) error {
 		if err := proto.Unmarshal(tokenBytes, pageToken); err != nil {
 			return status.Errorf(codes.InvalidArgument, "bad page token: %v", err)
 		}
+		if _, ok := pageToken.PageStart.(*types.PageToken_LastResourceName); !ok {
+			return status.Error(codes.InvalidArgument, "bad page token: no last resource name")
+		}
 	}
 	return nil
 }
diff --git a/pkg/trait/vendingpb/model_server.go b/pkg/trait/vendingpb/model_server.go
index c88d1a5..a1a3534 100644
--- a/pkg/trait/vendingpb/model_server.go
+++ b/pkg/trait/vendingpb/model_server.go
@@ -47,7 +47,7 @@ func (m *ModelServer) ListConsumables(_ context.Context, request *traits.ListCon
 
 	sortedItems := m.model.ListConsumables()
 	nextIndex := 0
-	if lastKey != "" {
+	if request.GetPageToken() != "" {
 		nextIndex = sort.Search(len(sortedItems), func(i int) bool {
 			return sortedItems[i].Name > lastKey
 		})
@@ -133,7 +133,7 @@ func (m *ModelServer) ListInventory(_ context.Context, request *traits.ListInven
 
 	sortedItems := m.model.ListInventory()
 	nextIndex := 0
-	if lastKey != "" {
+	if request.GetPageToken() != "" {
 		nextIndex = sort.Search(len(sortedItems), func(i int) bool {
 			return sortedItems[i].Consumable > lastKey
 		})
diff --git a/pkg/trait/vendingpb/pages.go b/pkg/trait/vendingpb/pages.go
index ba825d7..c16700f 100644
--- a/pkg/trait/vendingpb/pages.go
+++ b/pkg/trait/vendingpb/pages.go
@@ -37,6 +37,9 @@ func decodePageToken(token string, pageToken *types.PageToken) error {
 		if err := proto.Unmarshal(tokenBytes, pageToken); err != nil {
 			return status.Errorf(codes.InvalidArgument, "bad page token: %v", err)
 		}
+		if _, ok := pageToken.PageStart.(*types.PageToken_LastResourceName); !ok {
+			return status.Error(codes.InvalidArgument, "bad page token: no last resource name")
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 133f4334003e502253d5300793c0c74346ef7870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:59 +0000
Subject: [PATCH 32/56] fix: name presspb.ModelServer's methods after the RPCs
 they serve

GetButtonState and the others implemented nothing, all calls got Unimplemented.
---
 pkg/trait/presspb/model_server.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/trait/presspb/model_server.go b/pkg/trait/presspb/model_server.go
index 3f8a104..fde8762 100644
--- a/pkg/trait/presspb/model_server.go
+++ b/pkg/trait/presspb/model_server.go
@@ -18,15 +18,15 @@ func NewModelServer(model *Model) *ModelServer {
 	return &ModelServer{model: model}
 }
 
-func (s *ModelServer) GetButtonState(ctx context.Context, request *traits.GetPressedStateRequest) (*traits.PressedState, error) {
+func (s *ModelServer) GetPressedState(ctx context.Context, request *traits.GetPressedStateRequest) (*traits.PressedState, error) {
 	return s.model.GetPressedState(resource.WithReadMask(request.ReadMask)), nil
 }
 
-func (s *ModelServer) UpdateButtonState(ctx context.Context, request *traits.UpdatePressedStateRequest) (*traits.PressedState, error) {
+func (s *ModelServer) UpdatePressedState(ctx context.Context, request *traits.UpdatePressedStateRequest) (*traits.PressedState, error) {
 	return s.model.UpdatePressedState(request.PressedState, resource.WithUpdateMask(request.UpdateMask))
 }
 
-func (s *ModelServer) PullButtonState(request *traits.PullPressedStateRequest, server traits.PressApi_PullPressedStateServer) error {
+func (s *ModelServer) PullPressedState(request *traits.PullPressedStateRequest, server traits.PressApi_PullPressedStateServer) error {
 	changes := s.model.PullPressedState(server.Context(),
 		resource.WithReadMask(request.ReadMask),
 		resource.WithUpdatesOnly(request.UpdatesOnly),
-- 
2.43.0


From 9ea823216a4690ccde52782c3b396f95c5c85dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:01 +0000
Subject: [PATCH 33/56] fix: return the error of a rejected update from memory
 devices instead of panicking

---
 pkg/trait/airtemperaturepb/memory.go |  5 ++++-
 pkg/trait/countpb/memory.go          | 10 ++++++++--
 pkg/trait/emergencypb/memory.go      |  5 ++++-
 pkg/trait/lightpb/memory.go          |  5 ++++-
 4 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/pkg/trait/airtemperaturepb/memory.go b/pkg/trait/airtemperaturepb/memory.go
index 86a79ca..164f19c 100644
--- a/pkg/trait/airtemperaturepb/memory.go
+++ b/pkg/trait/airtemperaturepb/memory.go
@@ -50,7 +50,10 @@ func (t *MemoryDevice) GetAirTemperature(_ context.Context, req *traits.GetAirTe
 
 func (t *MemoryDevice) UpdateAirTemperature(_ context.Context, request *traits.UpdateAirTemperatureRequest) (*traits.AirTemperature, error) {
 	update, err := t.airTemperature.Set(request.State, resource.WithUpdateMask(request.UpdateMask))
-	return update.(*traits.AirTemperature), err
+	if err != nil {
+		return nil, err
+	}
+	return update.(*traits.AirTemperature), nil
 }
 
 func (t *MemoryDevice) PullAirTemperature(request *traits.PullAirTemperatureRequest, server traits.AirTemperatureApi_PullAirTemperatureServer) error {
diff --git a/pkg/trait/countpb/memory.go b/pkg/trait/countpb/memory.go
index d5eba4d..7238953 100644
--- a/pkg/trait/countpb/memory.go
+++ b/pkg/trait/countpb/memory.go
@@ -44,7 +44,10 @@ func (t *MemoryDevice) ResetCount(_ context.Context, request *traits.ResetCountR
 		rt = timestamppb.Now()
 	}
 	res, err := t.count.Set(&traits.Count{Added: 0, Removed: 0, ResetTime: rt}, resource.WithAllFieldsWritable())
-	return res.(*traits.Count), err
+	if err != nil {
+		return nil, err
+	}
+	return res.(*traits.Count), nil
 }
 
 func (t *MemoryDevice) UpdateCount(_ context.Context, request *traits.UpdateCountRequest) (*traits.Count, error) {
@@ -56,7 +59,10 @@ func (t *MemoryDevice) UpdateCount(_ context.Context, request *traits.UpdateCoun
 			tValue.Removed += tOld.Removed
 		}
 	}))
-	return res.(*traits.Count), err
+	if err != nil {
+		return nil, err
+	}
+	return res.(*traits.Count), nil
 }
 
 func (t *MemoryDevice) PullCounts(request *traits.PullCountsRequest, server traits.CountApi_PullCountsServer) error {
diff --git a/pkg/trait/emergencypb/memory.go b/pkg/trait/emergencypb/memory.go
index 44371df..b35242e 100644
--- a/pkg/trait/emergencypb/memory.go
+++ b/pkg/trait/emergencypb/memory.go
@@ -47,7 +47,10 @@ func (t *MemoryDevice) UpdateEmergency(_ context.Context, request *traits.Update
 			newt.LevelChangeTime = serverTimestamp()
 		}
 	}))
-	return update.(*traits.Emergency), err
+	if err != nil {
+		return nil, err
+	}
+	return update.(*traits.Emergency), nil
 }
 
 func (t *MemoryDevice) PullEmergency(request *traits.PullEmergencyRequest, server traits.EmergencyApi_PullEmergencyServer) error {
diff --git a/pkg/trait/lightpb/memory.go b/pkg/trait/lightpb/memory.go
index 6a9f89e..01d344f 100644
--- a/pkg/trait/lightpb/memory.go
+++ b/pkg/trait/lightpb/memory.go
@@ -48,7 +48,10 @@ func (s *MemoryDevice) GetBrightness(_ context.Context, req *traits.GetBrightnes
 func (s *MemoryDevice) UpdateBrightness(ctx context.Context, request *traits.UpdateBrightnessRequest) (*traits.Brightness, error) {
 	if request.GetBrightness().GetPreset() != nil {
 		res, err := s.brightness.Set(request.GetBrightness())
-		return res.(*traits.Brightness), err
+		if err != nil {
+			return nil, err
+		}
+		return res.(*traits.Brightness), nil
 	}
 
 	if err := resource.ValidateTweenOnUpdate("brightness", request.GetBrightness().GetBrightnessTween()); err != nil {
-- 
2.43.0


From 5b7815a297588f126d89ae3643b90b3ed8af6668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 34/56] fix: apply the read mask of GetPositions to the
 positions as a whole

It was applied to each position, which has other fields, and hid the preset.
---
 pkg/trait/openclosepb/model.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/openclosepb/model.go b/pkg/trait/openclosepb/model.go
index 68208d0..8392f01 100644
--- a/pkg/trait/openclosepb/model.go
+++ b/pkg/trait/openclosepb/model.go
@@ -39,7 +39,7 @@ type preset struct {
 }
 
 func (m *Model) GetPositions(opts ...resource.ReadOption) (*traits.OpenClosePositions, error) {
-	allPositions := m.positions.List(opts...) // already sorted by ID aka Direction ordinal
+	allPositions := m.positions.List() // already sorted by ID aka Direction ordinal
 	dst := &traits.OpenClosePositions{
 		States: make([]*traits.OpenClosePosition, len(allPositions)),
 	}
@@ -52,7 +52,8 @@ func (m *Model) GetPositions(opts ...resource.ReadOption) (*traits.OpenClosePosi
 		dst.Preset = preset
 	}
 
-	return dst, nil
+	responseFilter := resource.ComputeReadConfig(opts...).ResponseFilter()
+	return responseFilter.FilterClone(dst).(*traits.OpenClosePositions), nil
 }
 
 func (m *Model) GetPosition(dir traits.OpenClosePosition_Direction, opts ...resource.ReadOption) (*traits.OpenClosePosition, error) {
-- 
2.43.0


From b8dd991ad6c8278a4470fab16fd4a6c917154ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 35/56] fix: start PullPositions with the current value without
 positions too, send the updates that follow

Without positions at the start there's no last seed value, nothing was ever sent.
---
 pkg/trait/openclosepb/model.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/openclosepb/model.go b/pkg/trait/openclosepb/model.go
index 8392f01..51a9e14 100644
--- a/pkg/trait/openclosepb/model.go
+++ b/pkg/trait/openclosepb/model.go
@@ -116,8 +116,19 @@ func (m *Model) PullPositions(ctx context.Context, ops ...resource.ReadOption) <
 	go func() {
 		defer close(send)
 		all := make(map[string]*traits.OpenClosePosition, 1)
-		seenAll := false
 		var last *traits.OpenClosePositions
+		// there are no seed values, last or not, without positions
+		seenAll := len(m.positions.List()) == 0
+		if seenAll {
+			last = responseFilter.FilterClone(&traits.OpenClosePositions{}).(*traits.OpenClosePositions)
+			if !readRequest.UpdatesOnly {
+				select {
+				case <-ctx.Done():
+					return
+				case send <- PullOpenClosePositionsChange{Positions: last, ChangeTime: m.positions.Clock().Now()}:
+				}
+			}
+		}
 
 		for change := range m.positions.Pull(ctx) {
 			if change.NewValue == nil {
-- 
2.43.0


From 080d391eed8476ee73022f2de889d0d534c6dabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 36/56] fix: let DeleteMode succeed for an absent mode when
 missing modes are allowed

---
 pkg/trait/electricpb/model.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/pkg/trait/electricpb/model.go b/pkg/trait/electricpb/model.go
index 0488ccc..9691ab6 100644
--- a/pkg/trait/electricpb/model.go
+++ b/pkg/trait/electricpb/model.go
@@ -298,15 +298,8 @@ func (m *Model) deleteMode(id string, opts ...resource.WriteOption) error {
 		return ErrDeleteActiveMode
 	}
 
-	msg, err := m.modes.Delete(id, opts...)
-	if err != nil {
-		return err
-	}
-	if msg == nil {
-		return ErrModeNotFound
-	}
-
-	return nil
+	_, err := m.modes.Delete(id, opts...)
+	return err
 }
 
 // UpdateMode will modify one of the modes stored in this device.
-- 
2.43.0


From 0aed3f7241c6302448def57b0ef4ed9a9fbe4b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 37/56] fix: report NotFound when the mode to delete is absent,
 active mode or not

The id of the dummy mode that's active at first was reported as being active.
---
 pkg/trait/electricpb/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/electricpb/model.go b/pkg/trait/electricpb/model.go
index 9691ab6..94fdc1f 100644
--- a/pkg/trait/electricpb/model.go
+++ b/pkg/trait/electricpb/model.go
@@ -294,7 +294,7 @@ func (m *Model) DeleteMode(id string, opts ...resource.WriteOption) error {
 
 func (m *Model) deleteMode(id string, opts ...resource.WriteOption) error {
 	active := m.activeMode.Get().(*traits.ElectricMode)
-	if id == active.Id {
+	if mode, ok := m.findMode(id); ok && mode.Id == active.Id {
 		return ErrDeleteActiveMode
 	}
 
-- 
2.43.0


From 014cdf6915077d61f874fb866c2621bc107cc4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 38/56] fix: refuse updates of electric modes that would make a
 second mode normal

---
 pkg/trait/electricpb/model.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/trait/electricpb/model.go b/pkg/trait/electricpb/model.go
index 94fdc1f..41952b0 100644
--- a/pkg/trait/electricpb/model.go
+++ b/pkg/trait/electricpb/model.go
@@ -3,6 +3,7 @@ package electricpb
 import (
 	"context"
 	"math/rand"
+	"slices"
 	"sync"
 	"time"
 
@@ -305,6 +306,7 @@ func (m *Model) deleteMode(id string, opts ...resource.WriteOption) error {
 // UpdateMode will modify one of the modes stored in this device.
 // The mode to be modified is specified by mode.Id, which must be set.
 // Fields to be modified can be selected using mask - to modify all fields, pass a nil mask.
+// If this would make the mode normal, and the device already has another normal mode, then ErrNormalModeExists will result.
 func (m *Model) UpdateMode(mode *traits.ElectricMode, opts ...resource.WriteOption) (*traits.ElectricMode, error) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
@@ -312,6 +314,14 @@ func (m *Model) UpdateMode(mode *traits.ElectricMode, opts ...resource.WriteOpti
 }
 
 func (m *Model) updateMode(mode *traits.ElectricMode, opts ...resource.WriteOption) (*traits.ElectricMode, error) {
+	// if this makes the mode normal, check that there isn't another normal mode
+	mask := resource.ComputeWriteConfig(opts...).UpdateMask
+	if mode.Normal && (mask == nil || slices.Contains(mask.Paths, "normal")) {
+		if normal, ok := m.normalMode(); ok && normal.Id != mode.Id {
+			return nil, ErrNormalModeExists
+		}
+	}
+
 	msg, err := m.modes.Update(mode.Id, mode, opts...)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From e86c30094f170932d1bf275ced90c0c37c3cfb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:59 +0000
Subject: [PATCH 39/56] fix: don't remove another trait when RemoveChildTrait
 is given a trait the child doesn't have

---
 pkg/trait/parentpb/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/parentpb/model.go b/pkg/trait/parentpb/model.go
index 4c4bbbd..f85a858 100644
--- a/pkg/trait/parentpb/model.go
+++ b/pkg/trait/parentpb/model.go
@@ -189,7 +189,7 @@ func traitRemove(has []*traits.Trait, remove ...trait.Name) []*traits.Trait {
 		insertIndex := sort.Search(len(has), func(i int) bool {
 			return has[i].Name >= ts
 		})
-		if insertIndex == len(has) {
+		if insertIndex == len(has) || has[insertIndex].Name != ts {
 			continue // t isn't in has, nothing to do this iteration
 		}
 		copy(has[insertIndex:], has[insertIndex+1:])
-- 
2.43.0


From 2a6c6e77b17ecbd02819ea7fdc7d08fae4e25ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:00 +0000
Subject: [PATCH 40/56] fix: report the error when a dispensed quantity can't
 be converted

---
 pkg/trait/vendingpb/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/vendingpb/model.go b/pkg/trait/vendingpb/model.go
index 19267be..0934228 100644
--- a/pkg/trait/vendingpb/model.go
+++ b/pkg/trait/vendingpb/model.go
@@ -237,7 +237,7 @@ func (m *Model) DispenseInstantly(consumable string, quantity *traits.Consumable
 		return nil, err
 	}
 	if maskedErr != nil {
-		return nil, err
+		return nil, maskedErr
 	}
 	return stock, nil
 }
-- 
2.43.0


From c760ff8616813dbdb4cb951b226b57558e26737d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 41/56] fix: keep the unit of the remaining stock when
 dispensing

It was given the unit of the used stock, or panicked when there's none.
---
 pkg/trait/vendingpb/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/vendingpb/model.go b/pkg/trait/vendingpb/model.go
index 0934228..a049ad7 100644
--- a/pkg/trait/vendingpb/model.go
+++ b/pkg/trait/vendingpb/model.go
@@ -259,7 +259,7 @@ func updateStock(quantity *traits.Consumable_Quantity, src, dst *traits.Consumab
 		if amount < 0 {
 			amount = 0
 		}
-		dst.Remaining = &traits.Consumable_Quantity{Unit: src.Used.Unit, Amount: amount}
+		dst.Remaining = &traits.Consumable_Quantity{Unit: src.Remaining.Unit, Amount: amount}
 	}
 	return nil
 }
-- 
2.43.0


From 960a94cc2f7b0643b1be7298dc53b0a6873d8a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:03 +0000
Subject: [PATCH 42/56] fix: use the modes NewModelModes is given

---
 pkg/trait/modepb/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/modepb/model.go b/pkg/trait/modepb/model.go
index 4c29e3b..d18b6a4 100644
--- a/pkg/trait/modepb/model.go
+++ b/pkg/trait/modepb/model.go
@@ -48,7 +48,7 @@ func NewModelModes(modes *traits.Modes) *Model {
 	}
 
 	model := &Model{
-		modes: DefaultModes,
+		modes: modes,
 		modeValues: resource.NewValue(
 			resource.WithInitialValue(modeValues),
 		),
-- 
2.43.0


From 729737f3d8195179db4289ca06531031a0779ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:04 +0000
Subject: [PATCH 43/56] fix: wrap relative mode adjustments that are too large
 to be added to the index

---
 pkg/trait/modepb/model_server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/modepb/model_server.go b/pkg/trait/modepb/model_server.go
index 4775640..5af597b 100644
--- a/pkg/trait/modepb/model_server.go
+++ b/pkg/trait/modepb/model_server.go
@@ -77,7 +77,7 @@ func (m *ModelServer) relativeAdjustment(relative map[string]int32) resource.Upd
 			// find the value index in our supported values, and adjust the value to the new index based on adjustment
 			for i, value := range values {
 				if value.Name == oldValue {
-					newI := (int32(i) + adjustment) % int32(len(values))
+					newI := (int32(i) + adjustment%int32(len(values))) % int32(len(values)) // adjustment first, the sum must not overflow
 					if newI < 0 {
 						newI = int32(len(values)) + newI
 					}
-- 
2.43.0


From 3f2156c2019566aca00a31beab73c1185eaec8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:46 +0000
Subject: [PATCH 44/56] fix: let mode values win over relative adjustments of
 zero, as documented

---
 pkg/trait/modepb/model_server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/trait/modepb/model_server.go b/pkg/trait/modepb/model_server.go
index 5af597b..72cfc86 100644
--- a/pkg/trait/modepb/model_server.go
+++ b/pkg/trait/modepb/model_server.go
@@ -62,6 +62,9 @@ func (m *ModelServer) relativeAdjustment(relative map[string]int32) resource.Upd
 
 	adjustments:
 		for modeName, adjustment := range relative {
+			if _, absolute := newVal.Values[modeName]; absolute && adjustment == 0 {
+				continue // relative adjustments only win over mode values when they aren't zero
+			}
 			oldValue, ok := oldVal.Values[modeName]
 			values := m.model.AvailableValues(modeName)
 			if len(values) == 0 {
-- 
2.43.0


From 27cee7d900ef4bb83cec2747dd1f3614d360342b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:13 +0000
Subject: [PATCH 45/56] fix: keep the values of other modes when an update has
 relative changes only

They were removed, later relative changes of those modes started over.
---
 pkg/trait/modepb/model_server.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/modepb/model_server.go b/pkg/trait/modepb/model_server.go
index 72cfc86..db515ac 100644
--- a/pkg/trait/modepb/model_server.go
+++ b/pkg/trait/modepb/model_server.go
@@ -56,7 +56,8 @@ func (m *ModelServer) relativeAdjustment(relative map[string]int32) resource.Upd
 	return func(old, new proto.Message) {
 		oldVal := old.(*traits.ModeValues)
 		newVal := new.(*traits.ModeValues)
-		if newVal.Values == nil {
+		onlyRelative := newVal.Values == nil
+		if onlyRelative {
 			newVal.Values = make(map[string]string)
 		}
 
@@ -92,6 +93,15 @@ func (m *ModelServer) relativeAdjustment(relative map[string]int32) resource.Upd
 			// apparently the current value isn't one of the supported values, let's correct that
 			newVal.Values[modeName] = values[0].Name
 		}
+
+		if onlyRelative {
+			// the other modes stay as they are
+			for modeName, value := range oldVal.Values {
+				if _, adjusted := newVal.Values[modeName]; !adjusted {
+					newVal.Values[modeName] = value
+				}
+			}
+		}
 	}
 }
 
-- 
2.43.0


From c48c472014a0bbe5ff3547577b781b87ad7a3009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 46/56] fix: accept publications acknowledged without a
 receipt, as documented

The receipt time was set but not the receipt, they weren't acknowledged.
---
 pkg/trait/publicationpb/model_server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/publicationpb/model_server.go b/pkg/trait/publicationpb/model_server.go
index 6c55a1d..b5c209e 100644
--- a/pkg/trait/publicationpb/model_server.go
+++ b/pkg/trait/publicationpb/model_server.go
@@ -165,8 +165,12 @@ func (m *ModelServer) AcknowledgePublication(_ context.Context, request *traits.
 	if request.Version == "" {
 		return nil, status.Error(codes.InvalidArgument, "version is required")
 	}
+	receipt := request.Receipt
+	if receipt == traits.Publication_Audience_RECEIPT_UNSPECIFIED {
+		receipt = traits.Publication_Audience_ACCEPTED
+	}
 	received := &traits.Publication{Audience: &traits.Publication_Audience{
-		Receipt:               request.Receipt,
+		Receipt:               receipt,
 		ReceiptRejectedReason: request.ReceiptRejectedReason,
 	}}
 
-- 
2.43.0


From c22fdf57a13711f0b65f684dc0fa6da7ff22af66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:16 +0000
Subject: [PATCH 47/56] fix: keep the initial reading a meter model is
 configured with

---
 pkg/trait/meterpb/model.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/meterpb/model.go b/pkg/trait/meterpb/model.go
index 220e3a3..1c1c274 100644
--- a/pkg/trait/meterpb/model.go
+++ b/pkg/trait/meterpb/model.go
@@ -23,7 +23,8 @@ func NewModel(opts ...resource.Option) *Model {
 		oldVal := old.(*traits.MeterReading)
 		newVal := new.(*traits.MeterReading)
 		now := value.Clock().Now()
-		if oldVal.StartTime == nil {
+		proto.Merge(newVal, oldVal) // keep the initial value
+		if newVal.StartTime == nil {
 			newVal.StartTime = timestamppb.New(now)
 		}
 		if newVal.EndTime == nil {
-- 
2.43.0


From c4b32877ce0fc6fcf9733b13d3ada35b64b5fca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 48/56] fix: keep the start time of a meter when recording a
 reading

---
 pkg/trait/meterpb/model.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/meterpb/model.go b/pkg/trait/meterpb/model.go
index 1c1c274..be666cd 100644
--- a/pkg/trait/meterpb/model.go
+++ b/pkg/trait/meterpb/model.go
@@ -54,7 +54,9 @@ func (m *Model) RecordReading(val float32) (*traits.MeterReading, error) {
 		now := m.meterReading.Clock().Now()
 		newVal := new.(*traits.MeterReading)
 		newVal.EndTime = timestamppb.New(now)
-	}))
+	}),
+		// the start time stays
+		resource.WithUpdatePaths("usage", "end_time"))
 }
 
 // Reset resets the meter to zero, updating both start and end times to now.
-- 
2.43.0


From 8f1118ab551aabd0f4bad9ae144c33dd8fbed6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:20 +0000
Subject: [PATCH 49/56] fix: reverse the fan's direction instead of panicking

---
 pkg/trait/fanspeedpb/model_server.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/fanspeedpb/model_server.go b/pkg/trait/fanspeedpb/model_server.go
index cf213ce..5350d9e 100644
--- a/pkg/trait/fanspeedpb/model_server.go
+++ b/pkg/trait/fanspeedpb/model_server.go
@@ -58,6 +58,18 @@ func (s *ModelServer) PullFanSpeed(request *traits.PullFanSpeedRequest, server t
 }
 
 func (s *ModelServer) ReverseFanSpeedDirection(ctx context.Context, request *traits.ReverseFanSpeedDirectionRequest) (*traits.FanSpeed, error) {
-	// TODO implement me
-	panic("implement me")
+	return s.model.UpdateFanSpeed(&traits.FanSpeed{},
+		resource.WithUpdatePaths("direction"),
+		resource.InterceptBefore(func(old, new proto.Message) {
+			newVal := new.(*traits.FanSpeed)
+			switch direction := old.(*traits.FanSpeed).Direction; direction {
+			case traits.FanSpeed_FORWARD:
+				newVal.Direction = traits.FanSpeed_BACKWARD
+			case traits.FanSpeed_BACKWARD:
+				newVal.Direction = traits.FanSpeed_FORWARD
+			default:
+				newVal.Direction = direction
+			}
+		}),
+	)
 }
-- 
2.43.0


From 45161f8ee9931d09e73d90f6f5e21594765ad985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:22 +0000
Subject: [PATCH 50/56] fix: don't panic when dispensing without a quantity

---
 pkg/trait/vendingpb/model.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/vendingpb/model.go b/pkg/trait/vendingpb/model.go
index a049ad7..208cd7b 100644
--- a/pkg/trait/vendingpb/model.go
+++ b/pkg/trait/vendingpb/model.go
@@ -244,14 +244,14 @@ func (m *Model) DispenseInstantly(consumable string, quantity *traits.Consumable
 
 func updateStock(quantity *traits.Consumable_Quantity, src, dst *traits.Consumable_Stock) error {
 	if src.Used != nil {
-		delta, err := unitpb.Convert32(quantity.Amount, quantity.Unit, src.Used.Unit)
+		delta, err := unitpb.Convert32(quantity.GetAmount(), quantity.GetUnit(), src.Used.Unit)
 		if err != nil {
 			return err
 		}
 		dst.Used = &traits.Consumable_Quantity{Unit: src.Used.Unit, Amount: src.Used.Amount + delta}
 	}
 	if src.Remaining != nil {
-		delta, err := unitpb.Convert32(quantity.Amount, quantity.Unit, src.Remaining.Unit)
+		delta, err := unitpb.Convert32(quantity.GetAmount(), quantity.GetUnit(), src.Remaining.Unit)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 912053702b5173bce8ae9ff25ea913daf8ab9a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 51/56] fix: keep the preset, index and percentage of a fan in
 sync when an update doesn't mention the preset

Clearing the preset was taken for a change of preset, nothing else was derived: setting only the percentage or
index left the others as they were, so did relative changes. Setting the current preset again turned the fan off.
---
 pkg/trait/fanspeedpb/model.go        | 91 ++++++++++++++++++----------
 pkg/trait/fanspeedpb/model_server.go | 18 ++++--
 2 files changed, 73 insertions(+), 36 deletions(-)

diff --git a/pkg/trait/fanspeedpb/model.go b/pkg/trait/fanspeedpb/model.go
index 84a4d1d..a1ece0d 100644
--- a/pkg/trait/fanspeedpb/model.go
+++ b/pkg/trait/fanspeedpb/model.go
@@ -58,7 +58,11 @@ func (m *Model) UpdateFanSpeed(fanSpeed *traits.FanSpeed, opts ...resource.Write
 		return nil, err
 	}
 
-	opts = append([]resource.WriteOption{resource.InterceptAfter(m.DeriveValues)}, opts...)
+	derive := m.DeriveValues
+	if resource.ComputeWriteConfig(opts...).UpdateMask == nil {
+		derive = m.deriveAll
+	}
+	opts = append([]resource.WriteOption{resource.InterceptAfter(derive)}, opts...)
 	val, err := m.fanSpeed.Set(fanSpeed, opts...)
 	if val == nil {
 		return nil, err
@@ -88,44 +92,67 @@ func (m *Model) validateUpdate(fanSpeed *traits.FanSpeed) error {
 func (m *Model) DeriveValues(old, new proto.Message) {
 	oldVal := old.(*traits.FanSpeed)
 	newVal := new.(*traits.FanSpeed)
-	if oldVal.Preset != newVal.Preset {
-		// preset updated, keep the index and percentage in sync
-		for i, preset := range m.presets {
-			if preset.Name == newVal.Preset {
-				newVal.PresetIndex = int32(i)
-				newVal.Percentage = preset.Percentage
-				break
-			}
-		}
-		return
+	switch {
+	case newVal.Preset != "" && oldVal.Preset != newVal.Preset:
+		m.deriveFromPreset(newVal)
+	case oldVal.PresetIndex != newVal.PresetIndex:
+		m.deriveFromIndex(newVal)
+	case oldVal.Percentage != newVal.Percentage, oldVal.Preset != newVal.Preset:
+		m.deriveFromPercentage(newVal)
 	}
+}
 
-	if oldVal.PresetIndex != newVal.PresetIndex {
-		// cap the index if needed, and update the preset and percentage
-		if newVal.PresetIndex >= int32(len(m.presets)) {
-			newVal.PresetIndex = int32(len(m.presets) - 1)
-		}
-		if newVal.PresetIndex < 0 {
-			newVal.PresetIndex = 0
+// deriveAll is like DeriveValues for updates of all fields, those with their zero value haven't been set.
+func (m *Model) deriveAll(_, new proto.Message) {
+	newVal := new.(*traits.FanSpeed)
+	switch {
+	case newVal.Preset != "":
+		m.deriveFromPreset(newVal)
+	case newVal.PresetIndex != 0:
+		m.deriveFromIndex(newVal)
+	default:
+		m.deriveFromPercentage(newVal)
+	}
+}
+
+// deriveFromPreset keeps the index and percentage in sync with the preset.
+func (m *Model) deriveFromPreset(val *traits.FanSpeed) {
+	for i, preset := range m.presets {
+		if preset.Name == val.Preset {
+			val.PresetIndex = int32(i)
+			val.Percentage = preset.Percentage
+			break
 		}
-		preset := m.presets[newVal.PresetIndex]
-		newVal.Preset = preset.Name
-		newVal.Percentage = preset.Percentage
+	}
+}
+
+// deriveFromIndex caps the index if needed, and keeps the preset and percentage in sync with it.
+func (m *Model) deriveFromIndex(val *traits.FanSpeed) {
+	if len(m.presets) == 0 {
+		m.deriveFromPercentage(val)
 		return
 	}
+	if val.PresetIndex >= int32(len(m.presets)) {
+		val.PresetIndex = int32(len(m.presets) - 1)
+	}
+	if val.PresetIndex < 0 {
+		val.PresetIndex = 0
+	}
+	preset := m.presets[val.PresetIndex]
+	val.Preset = preset.Name
+	val.Percentage = preset.Percentage
+}
 
-	if oldVal.Percentage != newVal.Percentage {
-		// try to find a preset that matches, and update the index and preset
-		newVal.PresetIndex = -1
-		newVal.Preset = ""
-		for i, preset := range m.presets {
-			if preset.Percentage == newVal.Percentage {
-				newVal.PresetIndex = int32(i)
-				newVal.Preset = preset.Name
-				break
-			}
+// deriveFromPercentage tries to find a preset that matches, and keeps the index and preset in sync with it.
+func (m *Model) deriveFromPercentage(val *traits.FanSpeed) {
+	val.PresetIndex = -1
+	val.Preset = ""
+	for i, preset := range m.presets {
+		if preset.Percentage == val.Percentage {
+			val.PresetIndex = int32(i)
+			val.Preset = preset.Name
+			break
 		}
-		return
 	}
 }
 
diff --git a/pkg/trait/fanspeedpb/model_server.go b/pkg/trait/fanspeedpb/model_server.go
index 5350d9e..a6aa4b6 100644
--- a/pkg/trait/fanspeedpb/model_server.go
+++ b/pkg/trait/fanspeedpb/model_server.go
@@ -34,15 +34,25 @@ func (s *ModelServer) GetFanSpeed(_ context.Context, request *traits.GetFanSpeed
 }
 
 func (s *ModelServer) UpdateFanSpeed(_ context.Context, request *traits.UpdateFanSpeedRequest) (*traits.FanSpeed, error) {
-	return s.model.UpdateFanSpeed(request.FanSpeed, resource.InterceptBefore(func(old, new proto.Message) {
-		if request.Relative {
+	var opts []resource.WriteOption
+	if request.Relative {
+		// update what is adjusted, the current values stay otherwise
+		paths := []string{"percentage", "preset_index"}
+		if request.GetFanSpeed().GetPreset() != "" {
+			paths = append(paths, "preset")
+		}
+		if request.GetFanSpeed().GetDirection() != traits.FanSpeed_DIRECTION_UNSPECIFIED {
+			paths = append(paths, "direction")
+		}
+		opts = append(opts, resource.WithUpdatePaths(paths...), resource.InterceptBefore(func(old, new proto.Message) {
 			oldVal := old.(*traits.FanSpeed)
 			newVal := new.(*traits.FanSpeed)
 			newVal.Percentage += oldVal.Percentage
 			newVal.PresetIndex += oldVal.PresetIndex
 			// todo: should we support setting the preset relatively if we're between presets?
-		}
-	}))
+		}))
+	}
+	return s.model.UpdateFanSpeed(request.FanSpeed, opts...)
 }
 
 func (s *ModelServer) PullFanSpeed(request *traits.PullFanSpeedRequest, server traits.FanSpeedApi_PullFanSpeedServer) error {
-- 
2.43.0


From ca4c14122a40f94b4bea5e59daadea67edb287d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 52/56] fix: allow acknowledging an acknowledged publication
 again when the request asks for it

---
 pkg/trait/publicationpb/model_server.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/trait/publicationpb/model_server.go b/pkg/trait/publicationpb/model_server.go
index b5c209e..b4de91a 100644
--- a/pkg/trait/publicationpb/model_server.go
+++ b/pkg/trait/publicationpb/model_server.go
@@ -174,8 +174,8 @@ func (m *ModelServer) AcknowledgePublication(_ context.Context, request *traits.
 		ReceiptRejectedReason: request.ReceiptRejectedReason,
 	}}
 
-	// we return this error if the publication has already been ack'd,
-	// we check for it later in combination with request.AllowAcknowledged
+	// we return this error if the publication has already been ack'd, the model adds context to it so we check for
+	// acknowledgedPub later in combination with request.AllowAcknowledged
 	alreadyAcknowledged := status.Errorf(codes.FailedPrecondition, "%v@%v is already acknowledged", request.Id, request.Version)
 	var acknowledgedPub *traits.Publication
 
@@ -190,7 +190,7 @@ func (m *ModelServer) AcknowledgePublication(_ context.Context, request *traits.
 			// check an ACK hasn't already been processed
 			receipt := val.GetAudience().GetReceipt()
 			if receipt == traits.Publication_Audience_ACCEPTED || receipt == traits.Publication_Audience_REJECTED {
-				acknowledgedPub = val
+				acknowledgedPub = proto.Clone(val).(*traits.Publication)
 				return alreadyAcknowledged
 			}
 
@@ -202,7 +202,7 @@ func (m *ModelServer) AcknowledgePublication(_ context.Context, request *traits.
 		}),
 	)
 
-	if err == alreadyAcknowledged && request.AllowAcknowledged {
+	if acknowledgedPub != nil && request.AllowAcknowledged {
 		return acknowledgedPub, nil
 	}
 
-- 
2.43.0


From d8171dcc3c28080cfe9750bdd4c5e74c7d87fffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:17 +0000
Subject: [PATCH 53/56] fix: update positions as their update mask says, keep
 the direction of created positions

---
 pkg/masks/util.go              | 14 ++++++--------
 pkg/trait/openclosepb/model.go | 18 ++++++++++++------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/pkg/masks/util.go b/pkg/masks/util.go
index 73b558d..8396250 100644
--- a/pkg/masks/util.go
+++ b/pkg/masks/util.go
@@ -6,6 +6,8 @@ import (
 	"google.golang.org/protobuf/types/known/fieldmaskpb"
 )
 
+// RemovePrefix returns the mask that selects from the message at prefix what mask selects below prefix.
+// The result is nil if mask selects everything at prefix, and has no paths if it selects nothing.
 func RemovePrefix(prefix string, mask *fieldmaskpb.FieldMask) *fieldmaskpb.FieldMask {
 	if mask == nil {
 		return nil
@@ -14,21 +16,17 @@ func RemovePrefix(prefix string, mask *fieldmaskpb.FieldMask) *fieldmaskpb.Field
 	for _, path := range mask.Paths {
 		switch {
 		case path == prefix:
-			continue // skip this one
+			return nil
 		case strings.HasPrefix(path, prefix+"."):
-			path = path[7:]
+			path = path[len(prefix)+1:]
 			switch {
 			case path == "*":
-				continue
+				return nil
 			case strings.HasPrefix(path, "*."):
 				path = path[2:]
 			}
-			out.Paths = append(mask.Paths, path)
+			out.Paths = append(out.Paths, path)
 		}
 	}
-
-	if len(mask.Paths) == 0 {
-		return nil
-	}
 	return out
 }
diff --git a/pkg/trait/openclosepb/model.go b/pkg/trait/openclosepb/model.go
index 51a9e14..12f4e89 100644
--- a/pkg/trait/openclosepb/model.go
+++ b/pkg/trait/openclosepb/model.go
@@ -65,9 +65,10 @@ func (m *Model) GetPosition(dir traits.OpenClosePosition_Direction, opts ...reso
 }
 
 func (m *Model) UpdatePositions(positions *traits.OpenClosePositions, opts ...resource.WriteOption) (*traits.OpenClosePositions, error) {
-	states := positions.GetStates()
+	writeRequest := resource.ComputeWriteConfig(opts...)
+	states, statesMask := positions.GetStates(), masks.RemovePrefix("states", writeRequest.UpdateMask)
 	// preset handling
-	if positions.Preset != nil {
+	if presetMask := masks.RemovePrefix("preset", writeRequest.UpdateMask); positions.GetPreset() != nil && (presetMask == nil || len(presetMask.Paths) > 0) {
 		preset, presetPositions := m.presetForName(positions.Preset.Name)
 		if preset == nil {
 			return nil, status.Errorf(codes.InvalidArgument, "preset %q not found", positions.Preset.Name)
@@ -76,14 +77,19 @@ func (m *Model) UpdatePositions(positions *traits.OpenClosePositions, opts ...re
 		for i, position := range presetPositions {
 			states[i] = proto.Clone(position).(*traits.OpenClosePosition)
 		}
+		statesMask = nil // presets are applied as a whole
 	}
 
-	writeRequest := resource.ComputeWriteConfig(opts...)
 	opts = append([]resource.WriteOption{}, opts...)
-	if writeRequest.UpdateMask != nil {
-		opts = append(opts, resource.WithUpdateMask(masks.RemovePrefix("states", writeRequest.UpdateMask)))
+	if statesMask != nil {
+		if len(statesMask.Paths) == 0 {
+			states = nil // the mask mentions no states
+		}
+		// positions need their direction, even if they are created
+		statesMask.Paths = append(statesMask.Paths, "direction")
+		opts = append(opts, resource.WithMoreWritablePaths("direction"))
 	}
-	opts = append(opts, resource.WithCreateIfAbsent())
+	opts = append(opts, resource.WithUpdateMask(statesMask), resource.WithCreateIfAbsent())
 
 	for _, state := range states {
 		_, err := m.positions.Update(directionToID(state.Direction), state, opts...)
-- 
2.43.0


From 1a2b930f933315643d6821abd6b72945017e5e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:20 +0000
Subject: [PATCH 54/56] fix: don't start PullEnterLeaveEvents with the current
 totals when only updates are asked for

---
 pkg/trait/enterleavesensorpb/model_server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/enterleavesensorpb/model_server.go b/pkg/trait/enterleavesensorpb/model_server.go
index 65efbdd..a85b7fe 100644
--- a/pkg/trait/enterleavesensorpb/model_server.go
+++ b/pkg/trait/enterleavesensorpb/model_server.go
@@ -37,7 +37,7 @@ func (m *ModelServer) ResetEnterLeaveTotals(ctx context.Context, request *traits
 }
 
 func (m *ModelServer) PullEnterLeaveEvents(request *traits.PullEnterLeaveEventsRequest, server traits.EnterLeaveSensorApi_PullEnterLeaveEventsServer) error {
-	for change := range m.model.PullEnterLeaveEvents(server.Context(), resource.WithReadMask(request.ReadMask)) {
+	for change := range m.model.PullEnterLeaveEvents(server.Context(), resource.WithReadMask(request.ReadMask), resource.WithUpdatesOnly(request.UpdatesOnly)) {
 		err := server.Send(&traits.PullEnterLeaveEventsResponse{Changes: []*traits.PullEnterLeaveEventsResponse_Change{
 			{Name: request.Name, ChangeTime: timestamppb.New(change.ChangeTime), EnterLeaveEvent: change.Value},
 		}})
-- 
2.43.0


From 623f7bf49150029c732c27f49d7b3cb31c0ce64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:04 +0000
Subject: [PATCH 55/56] fix: updating brightness with a preset doesn't write to
 the caller's options

---
 pkg/trait/lightpb/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/lightpb/model.go b/pkg/trait/lightpb/model.go
index 33a4ca6..89c6333 100644
--- a/pkg/trait/lightpb/model.go
+++ b/pkg/trait/lightpb/model.go
@@ -30,7 +30,7 @@ func (m *Model) GetBrightness(opts ...resource.ReadOption) (*traits.Brightness,
 func (m *Model) UpdateBrightness(light *traits.Brightness, opts ...resource.WriteOption) (*traits.Brightness, error) {
 	light = proto.Clone(light).(*traits.Brightness)
 	if m.setLevelFromPreset(light) {
-		opts = append(opts, resource.WithMoreUpdatePaths("level_percent"))
+		opts = append(opts[:len(opts):len(opts)], resource.WithMoreUpdatePaths("level_percent")) // opts are the caller's
 	}
 	res, err := m.brightness.Set(light, opts...)
 	if err != nil {
-- 
2.43.0


From 8178c36976ea70498773e5019d8cc9ad226f9786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:49 +0000
Subject: [PATCH 56/56] fix: writes don't change the message they are given

InterceptBefore interceptors, generated ids and CreateHail's default state changed
the caller's message, which may be the stored message when it was read before.
---
 pkg/resource/opt.go              | 1 +
 pkg/trait/bookingpb/model.go     | 2 ++
 pkg/trait/hailpb/model.go        | 1 +
 pkg/trait/hailpb/model_server.go | 2 ++
 pkg/trait/publicationpb/model.go | 1 +
 pkg/trait/vendingpb/model.go     | 2 ++
 6 files changed, 9 insertions(+)

diff --git a/pkg/resource/opt.go b/pkg/resource/opt.go
index 84c7ce5..286c5e7 100644
--- a/pkg/resource/opt.go
+++ b/pkg/resource/opt.go
@@ -318,6 +318,7 @@ func (wr WriteRequest) changeFn(writer *masks.FieldUpdater, value proto.Message)
 
 		if wr.interceptBefore != nil {
 			// allow callers to update the value based on the old message
+			value = proto.Clone(value) // the interceptor changes it, but it belongs to the caller
 			wr.interceptBefore(old, value)
 		}
 
diff --git a/pkg/trait/bookingpb/model.go b/pkg/trait/bookingpb/model.go
index c887ace..90708c6 100644
--- a/pkg/trait/bookingpb/model.go
+++ b/pkg/trait/bookingpb/model.go
@@ -6,6 +6,7 @@ import (
 
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
+	"google.golang.org/protobuf/proto"
 
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-api/go/types"
@@ -35,6 +36,7 @@ func (m *Model) ListBookings(opts ...resource.ReadOption) []*traits.Booking {
 }
 
 func (m *Model) CreateBooking(booking *traits.Booking) (*traits.Booking, error) {
+	booking = proto.Clone(booking).(*traits.Booking) // the id is set on it
 	msg, err := m.bookings.Add(booking.Id, booking, resource.WithGenIDIfAbsent(), resource.WithIDCallback(func(id string) {
 		booking.Id = id
 	}))
diff --git a/pkg/trait/hailpb/model.go b/pkg/trait/hailpb/model.go
index d971fbe..81edc6d 100644
--- a/pkg/trait/hailpb/model.go
+++ b/pkg/trait/hailpb/model.go
@@ -37,6 +37,7 @@ func NewModel(opts ...resource.Option) *Model {
 
 func (m *Model) CreateHail(hail *traits.Hail) (*traits.Hail, error) {
 	defer m.gc()
+	hail = proto.Clone(hail).(*traits.Hail) // the id is set on it
 	return castReturn(m.hails.Add("", hail, resource.WithGenIDIfAbsent(), resource.WithIDCallback(func(id string) {
 		hail.Id = id
 	})))
diff --git a/pkg/trait/hailpb/model_server.go b/pkg/trait/hailpb/model_server.go
index ba05019..2b80df0 100644
--- a/pkg/trait/hailpb/model_server.go
+++ b/pkg/trait/hailpb/model_server.go
@@ -7,6 +7,7 @@ import (
 	"google.golang.org/grpc"
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
+	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/known/timestamppb"
 
 	"github.com/smart-core-os/sc-api/go/traits"
@@ -36,6 +37,7 @@ func (m *ModelServer) Register(server grpc.ServiceRegistrar) {
 func (m *ModelServer) CreateHail(_ context.Context, request *traits.CreateHailRequest) (*traits.Hail, error) {
 	hail := request.Hail
 	if hail.State == traits.Hail_STATE_UNSPECIFIED {
+		hail = proto.Clone(hail).(*traits.Hail) // the request belongs to the caller
 		hail.State = traits.Hail_CALLED
 	}
 	return m.model.CreateHail(hail)
diff --git a/pkg/trait/publicationpb/model.go b/pkg/trait/publicationpb/model.go
index db0d033..deeda0b 100644
--- a/pkg/trait/publicationpb/model.go
+++ b/pkg/trait/publicationpb/model.go
@@ -27,6 +27,7 @@ func NewModel(opts ...resource.Option) *Model {
 }
 
 func (m *Model) CreatePublication(publication *traits.Publication, opts ...resource.WriteOption) (*traits.Publication, error) {
+	publication = proto.Clone(publication).(*traits.Publication) // the id is set on it
 	args := calcWriteArgs(opts...)
 	return toPublication(m.publications.Add(publication.Id, publication,
 		resource.WithGenIDIfAbsent(), resource.WithIDCallback(func(id string) {
diff --git a/pkg/trait/vendingpb/model.go b/pkg/trait/vendingpb/model.go
index 208cd7b..aa1aad8 100644
--- a/pkg/trait/vendingpb/model.go
+++ b/pkg/trait/vendingpb/model.go
@@ -36,6 +36,7 @@ func NewModel(opts ...resource.Option) *Model {
 // If consumable.Name is specified it will be used as the key, it absent a new name will be invented.
 // If the consumables name already exists, an error will be returned.
 func (m *Model) CreateConsumable(consumable *traits.Consumable) (*traits.Consumable, error) {
+	consumable = proto.Clone(consumable).(*traits.Consumable) // the id is set on it
 	return castConsumable(m.consumables.Add(consumable.Name, consumable, resource.WithGenIDIfAbsent(), resource.WithIDCallback(func(id string) {
 		consumable.Name = id
 	})))
@@ -125,6 +126,7 @@ func (m *Model) PullConsumables(ctx context.Context, opts ...resource.ReadOption
 // If stock.Consumable is not supplied, a new consumable name will be invented.
 // Errors if the stock.Consumable already exists as a known stock entry.
 func (m *Model) CreateStock(stock *traits.Consumable_Stock) (*traits.Consumable_Stock, error) {
+	stock = proto.Clone(stock).(*traits.Consumable_Stock) // the id is set on it
 	return castStock(m.inventory.Add(stock.Consumable, stock, resource.WithGenIDIfAbsent(), resource.WithIDCallback(func(id string) {
 		stock.Consumable = id
 	})))
-- 
2.43.0

