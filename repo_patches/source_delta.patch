From e82bec905da29e80c44cbb3e1046a039ccdf4e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:23 +0000
Subject: [PATCH 01/37] fix: Duration.String must carry and keep
 sub-millisecond precision

A fraction rounding to 1000 ms was dropped (0.9996 s became PT0S) and
values from 0.5 ms up to 1 ms lost the documented full precision.
---
 mpd/duration.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mpd/duration.go b/mpd/duration.go
index 3befc58..2d9c694 100644
--- a/mpd/duration.go
+++ b/mpd/duration.go
@@ -1,7 +1,6 @@
 package mpd
 
 import (
-	"math"
 	"strconv"
 	"time"
 
@@ -66,15 +65,17 @@ func (d *Duration) String() string {
 		u = -u
 	}
 
-	s := u / uint64(time.Second)
-	ns := u - s*uint64(time.Second)
-	ms := uint64(math.Round(float64(ns) * 1.0e-6))
+	// Milliseconds in total, rounded to nearest, so that a fraction rounding
+	// up to a full second carries into the seconds.
+	total := (u + uint64(time.Millisecond)/2) / uint64(time.Millisecond)
+	s := total / 1000
+	ms := total % 1000
 
 	w--
 	buf[w] = 'S' // End with Seconds
 
 	switch {
-	case s == 0 && ms == 0:
+	case u < uint64(time.Millisecond):
 		// Time smaller than ms, return higher precision
 		w, u = fmtFrac(buf[:w], u, 9)
 		w = fmtInt(buf[:w], u)
-- 
2.43.0


From 4a2f46cbe1df7a868c2adfe39b98aba290352da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:47 +0000
Subject: [PATCH 02/37] fix: ParseDuration must be exact and reject durations
 that overflow

Seconds were scaled in floating point and truncated (PT1.001S was read
as 1.000999999s), and durations beyond the int64 range wrapped silently.
---
 mpd/duration.go | 49 ++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/mpd/duration.go b/mpd/duration.go
index 2d9c694..8520162 100644
--- a/mpd/duration.go
+++ b/mpd/duration.go
@@ -1,7 +1,9 @@
 package mpd
 
 import (
+	"math"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/Eyevinn/dash-mpd/xml"
@@ -263,25 +265,33 @@ func ParseDuration(str string) (time.Duration, error) {
 			if err != nil {
 				return 0, newParseDurationError("error parsing Days")
 			}
-			total += time.Duration(n) * 24 * time.Hour
+			if !addUnits(&total, n, 24*time.Hour) {
+				return 0, newParseDurationError("duration is too long")
+			}
 		case 'H':
 			n, err := strconv.ParseUint(numStr, 10, 64)
 			if err != nil {
 				return 0, newParseDurationError("error parsing Hours")
 			}
-			total += time.Duration(n) * time.Hour
+			if !addUnits(&total, n, time.Hour) {
+				return 0, newParseDurationError("duration is too long")
+			}
 		case 'M':
 			n, err := strconv.ParseUint(numStr, 10, 64)
 			if err != nil {
 				return 0, newParseDurationError("error parsing Minutes")
 			}
-			total += time.Duration(n) * time.Minute
+			if !addUnits(&total, n, time.Minute) {
+				return 0, newParseDurationError("duration is too long")
+			}
 		case 'S':
-			f, err := strconv.ParseFloat(numStr, 64)
+			n, ns, err := parseSeconds(numStr)
 			if err != nil {
 				return 0, newParseDurationError("error parsing Seconds")
 			}
-			total += time.Duration(f * float64(time.Second))
+			if !addUnits(&total, n, time.Second) || !addUnits(&total, ns, time.Nanosecond) {
+				return 0, newParseDurationError("duration is too long")
+			}
 		}
 	}
 	if !seenAny {
@@ -290,6 +300,35 @@ func ParseDuration(str string) (time.Duration, error) {
 	return total, nil
 }
 
+// addUnits adds n units to total and reports whether the sum fits.
+func addUnits(total *time.Duration, n uint64, unit time.Duration) bool {
+	if n > uint64((math.MaxInt64-*total)/unit) {
+		return false
+	}
+	*total += time.Duration(n) * unit
+	return true
+}
+
+// parseSeconds splits decimal seconds into whole seconds and nanoseconds,
+// cropping digits beyond nanosecond precision.
+func parseSeconds(str string) (s, ns uint64, err error) {
+	whole, frac, _ := strings.Cut(str, ".")
+	if whole == "" && frac == "" {
+		return 0, 0, strconv.ErrSyntax
+	}
+	if whole != "" {
+		s, err = strconv.ParseUint(whole, 10, 64)
+		if err != nil {
+			return 0, 0, err
+		}
+	}
+	for unit, i := uint64(time.Second)/10, 0; i < len(frac) && unit > 0; i++ {
+		ns += uint64(frac[i]-'0') * unit
+		unit /= 10
+	}
+	return s, ns, nil
+}
+
 // Seconds returns the duration as a floating point number of seconds.
 func (d *Duration) Seconds() float64 {
 	return float64(*d) / float64(time.Second)
-- 
2.43.0


From 39ca6fb2afb41504296aaee9cc04fb5dc8c13e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:48 +0000
Subject: [PATCH 03/37] fix: xlink attributes of AdaptationSet and SegmentList
 belong to the xlink namespace

Without the namespace URI in the tag they were written without prefix
and as plain href/type/show attributes.
---
 mpd/mpd.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 3d02e9a..f45e41d 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -350,10 +350,10 @@ type UIntVWithIDType struct {
 // AdaptationSetType is AdaptationSet or EmptyAdaptationSet.
 // Note that XMLName is not set, since the same structure is used also for EmptyAdaptationSet.
 type AdaptationSetType struct {
-	XlinkHref               string                 `xml:"xlink:href,attr,omitempty"`
-	XlinkActuate            string                 `xml:"xlink:actuate,attr,omitempty"` // default is "onRequest"
-	XlinkType               string                 `xml:"xlink:type,attr,omitempty"`    // fixed "simple"
-	XlinkShow               string                 `xml:"xlink:show,attr,omitempty"`    // fixed "embed"
+	XlinkHref               string                 `xml:"http://www.w3.org/1999/xlink xlink:href,attr,omitempty"`
+	XlinkActuate            string                 `xml:"http://www.w3.org/1999/xlink xlink:actuate,attr,omitempty"` // default is "onRequest"
+	XlinkType               string                 `xml:"http://www.w3.org/1999/xlink xlink:type,attr,omitempty"`    // fixed "simple"
+	XlinkShow               string                 `xml:"http://www.w3.org/1999/xlink xlink:show,attr,omitempty"`    // fixed "embed"
 	Id                      *uint32                `xml:"id,attr"`
 	Group                   uint32                 `xml:"group,attr,omitempty"`
 	Lang                    string                 `xml:"lang,attr,omitempty"`
@@ -844,7 +844,7 @@ type SegmentListType struct {
 	XlinkHref    string            `xml:"http://www.w3.org/1999/xlink xlink:href,attr,omitempty"`
 	XlinkActuate string            `xml:"http://www.w3.org/1999/xlink xlink:actuate,attr,omitempty"` // default = "onRequest"
 	XlinkType    string            `xml:"http://www.w3.org/1999/xlink xlink:type,attr,omitempty"`    // fixed = "simple"
-	XlinkShow    string            `xml:"xlink:show,attr,omitempty"`                                 // fixed "embed"
+	XlinkShow    string            `xml:"http://www.w3.org/1999/xlink xlink:show,attr,omitempty"`    // fixed "embed"
 	SegmentURL   []*SegmentURLType `xml:"SegmentURL"`
 	MultipleSegmentBaseType
 }
-- 
2.43.0


From fddd19152f9f72b5bcaf680a4be50fca14e84372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:49 +0000
Subject: [PATCH 04/37] fix: Switching@interval is an attribute, not a child
 element

---
 mpd/mpd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index f45e41d..3d5ead6 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -756,7 +756,7 @@ type SubsetType struct {
 // SwitchingType is Switching
 type SwitchingType struct {
 	XMLName  xml.Name          `xml:"Switching"`
-	Interval uint32            `xml:"interval"`
+	Interval uint32            `xml:"interval,attr"`
 	Type     SwitchingTypeType `xml:"type,attr,omitempty"` // default = "media"
 }
 
-- 
2.43.0


From 0eb14fcc3f32e24101f1c56de3197925148873b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:25 +0000
Subject: [PATCH 05/37] fix: GroupLabel, InitializationGroup,
 InitializationPresentation and QualityLatency

Their types carried an XMLName of another element, so parsing such an
element failed and writing one produced that other name, and the vector
of the UInt types was written as a child element instead of text.
---
 mpd/mpd.go | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 3d5ead6..b4e32d8 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -331,20 +331,21 @@ type PlaybackRestrictionsType struct {
 	SkipAfter Duration `xml:"skipAfter,attr,omitempty"`
 }
 
-// UIntPairsWithIDType is UInt Pairs With ID.
+// UIntPairsWithIDType is UInt Pairs With ID, used for the QualityLatency element.
+// It therefore has no XMLName.
 type UIntPairsWithIDType struct {
-	XMLName xml.Name `xml:"UIntPairsWithID"`
-	Type    AnyURI   `xml:"type,attr,omitempty"`
-	*UIntVectorType
+	Type            AnyURI `xml:"type,attr,omitempty"`
+	*UIntVectorType `xml:",chardata"`
 }
 
-// UIntVWithIDType is UInt Vector With ID
+// UIntVWithIDType is UInt Vector With ID, used for the InitializationGroup and
+// InitializationPresentation elements.
+// It therefore has no XMLName.
 type UIntVWithIDType struct {
-	XMLName     xml.Name               `xml:"UIntVWithID"`
-	Id          uint32                 `xml:"id,attr"`
-	Profiles    ListOfProfilesType     `xml:"profiles,attr,omitempty"`
-	ContentType RFC6838ContentTypeType `xml:"contentType,attr,omitempty"`
-	UIntVectorType
+	Id             uint32                 `xml:"id,attr"`
+	Profiles       ListOfProfilesType     `xml:"profiles,attr,omitempty"`
+	ContentType    RFC6838ContentTypeType `xml:"contentType,attr,omitempty"`
+	UIntVectorType `xml:",chardata"`
 }
 
 // AdaptationSetType is AdaptationSet or EmptyAdaptationSet.
@@ -709,12 +710,12 @@ type ContentPopularityRateType struct {
 	PR                []*PR    `xml:"PR"`
 }
 
-// LabelType is Label and Group Label.
+// LabelType is Label and GroupLabel.
+// It therefore has no XMLName.
 type LabelType struct {
-	XMLName xml.Name `xml:"Label"`
-	Id      uint32   `xml:"id,attr,omitempty"` // default = 0
-	Lang    string   `xml:"lang,attr,omitempty"`
-	Value   string   `xml:",chardata"`
+	Id    uint32 `xml:"id,attr,omitempty"` // default = 0
+	Lang  string `xml:"lang,attr,omitempty"`
+	Value string `xml:",chardata"`
 }
 
 // ProducerReferenceTimeType is Producer Reference time.
-- 
2.43.0


From b8d4abbeeec0237cfafee018c4ce27f23271bcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:26 +0000
Subject: [PATCH 06/37] fix: a short write of the XML header must be reported

The header bypasses the encoder's bufio.Writer, so a destination that
took only part of it without an error made WriteXML continue and
report success for a truncated document.
---
 mpd/io.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpd/io.go b/mpd/io.go
index 8295cd1..d7290f1 100644
--- a/mpd/io.go
+++ b/mpd/io.go
@@ -18,6 +18,9 @@ type countingWriter struct {
 func (cw *countingWriter) Write(p []byte) (int, error) {
 	n, err := cw.w.Write(p)
 	cw.n += n
+	if n < len(p) && err == nil {
+		err = io.ErrShortWrite
+	}
 	return n, err
 }
 
-- 
2.43.0


From bd0d8916d451b544532c464ee61e5bc3fabe9c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:27 +0000
Subject: [PATCH 07/37] fix: DateTime.ConvertToSeconds must not overflow for
 distant times

---
 mpd/io.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpd/io.go b/mpd/io.go
index d7290f1..384db75 100644
--- a/mpd/io.go
+++ b/mpd/io.go
@@ -148,5 +148,6 @@ func (dt DateTime) ConvertToSeconds() (float64, error) {
 	if err != nil {
 		return 0, err
 	}
-	return float64(t.UnixNano()) / 1_000_000_000, nil
+	// UnixNano would overflow for times outside the years 1678 to 2262.
+	return float64(t.Unix()) + float64(t.Nanosecond())/1_000_000_000, nil
 }
-- 
2.43.0


From ef940ce6a377f2287b87fd7e4b54eef1d6a5f3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:06 +0000
Subject: [PATCH 08/37] fix: whitespace-separated string lists are one
 attribute

CMCDParameters@keys and @includeInRequests with several entries were
written as repeated attributes, which is not well-formed XML, and read
back as a single entry.
---
 mpd/mpd.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index b4e32d8..42c766a 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -996,6 +996,20 @@ type LeapSecondInformationType struct {
 // StringNoWhitespaceVectorType is Whitespace-separated list of no-whitespace strings
 type StringNoWhitespaceVectorType []string
 
+// MarshalXMLAttr renders the list as one whitespace-separated attribute.
+func (v *StringNoWhitespaceVectorType) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
+	if v == nil {
+		return xml.Attr{}, nil
+	}
+	return xml.Attr{Name: name, Value: strings.Join(*v, " ")}, nil
+}
+
+// UnmarshalXMLAttr splits the whitespace-separated list.
+func (v *StringNoWhitespaceVectorType) UnmarshalXMLAttr(attr xml.Attr) error {
+	*v = strings.Fields(attr.Value)
+	return nil
+}
+
 // ContentSteeringType is Content Steering.
 type ContentSteeringType struct {
 	DefaultServiceLocation string `xml:"defaultServiceLocation,attr,omitempty"`
-- 
2.43.0


From 8844a7a0001028ffd74fcefa855628859218f7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:07 +0000
Subject: [PATCH 09/37] fix: asking an unlinked Representation for inherited
 values must not panic

---
 mpd/mpd.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 42c766a..754bff0 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -557,7 +557,7 @@ type RepresentationBaseType struct {
 }
 
 func (r *RepresentationType) GetSegmentTemplate() *SegmentTemplateType {
-	if r.SegmentTemplate == nil {
+	if r.SegmentTemplate == nil && r.parent != nil {
 		return r.parent.GetSegmentTemplate()
 	}
 	return r.SegmentTemplate
@@ -602,7 +602,7 @@ func (r *RepresentationType) GetMedia() (string, error) {
 
 // GetMimeType returns the representation's or its parent's mime type.
 func (r *RepresentationType) GetMimeType() string {
-	if r.MimeType == "" {
+	if r.MimeType == "" && r.parent != nil {
 		return r.parent.GetMimeType()
 	}
 	return r.MimeType
@@ -610,7 +610,7 @@ func (r *RepresentationType) GetMimeType() string {
 
 // GetCodecs returns the representation's or its parent's codecs string.
 func (r *RepresentationType) GetCodecs() string {
-	if r.Codecs == "" {
+	if r.Codecs == "" && r.parent != nil {
 		return r.parent.GetCodecs()
 	}
 	return r.Codecs
@@ -618,7 +618,7 @@ func (r *RepresentationType) GetCodecs() string {
 
 // GetContentProtections returns the representation's or its parent's content protections.
 func (r *RepresentationType) GetContentProtections() []*ContentProtectionType {
-	if len(r.ContentProtections) == 0 {
+	if len(r.ContentProtections) == 0 && r.parent != nil {
 		return r.parent.GetContentProtections()
 	}
 	return r.ContentProtections
-- 
2.43.0


From b1da62f42e0d28de5cd14b30611d8b46b8c0a0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:47 +0000
Subject: [PATCH 10/37] fix: GetDuration must derive durations that the
 manifest determines

A period whose start is implied (first of a static MPD, or following a
period with duration) and, without mediaPresentationDuration, any but
the last period of a static MPD got an error although its start and end
are known.
---
 mpd/period.go | 46 +++++++++++++++++++---------------------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/mpd/period.go b/mpd/period.go
index 6f09105..4903302 100644
--- a/mpd/period.go
+++ b/mpd/period.go
@@ -129,7 +129,9 @@ func (p *Period) GetStart() (Duration, error) {
 	return 0, ErrUnknownPeriodStart
 }
 
-// GetDuration returns the period's duration if specified or the MPD is single-period static.
+// GetDuration returns the period's duration if specified, or derived from its start and
+// the start of the next period or, for the last period of a static MPD, the
+// MediaPresentationDuration.
 func (p *Period) GetDuration() (Duration, error) {
 	if p.Duration != nil {
 		return *p.Duration, nil
@@ -143,35 +145,25 @@ func (p *Period) GetDuration() (Duration, error) {
 	if err != nil {
 		return 0, err
 	}
-	switch m.GetType() {
-	case STATIC_TYPE:
-		if m.MediaPresentationDuration == nil {
-			return 0, ErrNoMediaPresentationDuration
-		}
-		end := *m.MediaPresentationDuration
-		if idx < nrPeriods-1 {
-			if m.Periods[idx+1].Start == nil {
-				return 0, ErrUnknownPeriodDur
-			}
-			end = *m.Periods[idx+1].Start
-		}
-		if p.Start == nil {
-			return 0, ErrUnknownPeriodDur
-		}
-		return end - *p.Start, nil
-	default: // dynamic
-		if p.Start == nil {
-			// Early available period
-			return 0, ErrUnknownPeriodDur
-		}
-		if idx == nrPeriods-1 {
-			return 0, ErrUnknownPeriodDur
-		}
-		if m.Periods[idx+1].Start == nil {
+	start, err := p.GetStart()
+	if err != nil {
+		// For example an early available period
+		return 0, ErrUnknownPeriodDur
+	}
+	if idx < nrPeriods-1 {
+		nextStart := m.Periods[idx+1].Start
+		if nextStart == nil {
 			return 0, ErrUnknownPeriodDur
 		}
-		return *m.Periods[idx+1].Start - *p.Start, nil
+		return *nextStart - start, nil
+	}
+	if m.GetType() != STATIC_TYPE {
+		return 0, ErrUnknownPeriodDur
+	}
+	if m.MediaPresentationDuration == nil {
+		return 0, ErrNoMediaPresentationDuration
 	}
+	return *m.MediaPresentationDuration - start, nil
 }
 
 // Clone returns a deep copy of the Period with parent links set.
-- 
2.43.0


From 1e5254ea4ef50fd2583667d67a1ae9003685c68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:21 +0000
Subject: [PATCH 11/37] fix: the encoder must honour shadowed and redeclared
 namespaces

An unprefixed element looked for its namespace among all its ancestors, so that
a default namespace redeclared in between was ignored; a namespace prefix or
default namespace declared by the tag's own attributes was not taken into
account when choosing its prefix; and xmlns="" was written twice.
---
 xml/marshal.go | 117 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 72 insertions(+), 45 deletions(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index c8acede..70db095 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -371,6 +371,28 @@ type element struct {
 	name       string
 	nsToPrefix map[string]string
 	prefixToNS map[string]string
+	defaultNS  string // default namespace declared by the tag, if hasDefault
+	hasDefault bool
+}
+
+// declarePrefix records that the tag binds prefix to uri.
+func (e *element) declarePrefix(prefix, uri string) {
+	if prefix == "" || uri == "" {
+		return
+	}
+	if e.nsToPrefix == nil {
+		e.nsToPrefix = make(map[string]string)
+		e.prefixToNS = make(map[string]string)
+	}
+	if e.nsToPrefix[uri] == "" {
+		e.nsToPrefix[uri] = prefix
+	}
+	e.prefixToNS[prefix] = uri
+}
+
+// declareDefault records that the tag declares uri as default namespace.
+func (e *element) declareDefault(uri string) {
+	e.defaultNS, e.hasDefault = uri, true
 }
 
 func newElement(name Name) element {
@@ -436,6 +458,19 @@ func (p *printer) getPrefix(uri string) string {
 	return ""
 }
 
+// inDefaultNS reports whether the innermost element, unprefixed, would be in
+// namespace uri: the innermost default namespace declared must be uri, by that
+// element's own tag or by the tag of an unprefixed element of that namespace.
+func (p *printer) inDefaultNS(uri string) bool {
+	for i := len(p.elements) - 1; i >= 0; i-- {
+		if e := &p.elements[i]; e.hasDefault {
+			own := i == len(p.elements)-1 || e.prefix == "" && e.xmlns == uri
+			return own && e.defaultNS == uri
+		}
+	}
+	return false
+}
+
 // createPrefix finds a prefix to use for the given namespace URI,
 // defining a new prefix if necessary. It returns the prefix.
 // If set, it will attempt to use preferred as the prefix.
@@ -450,10 +485,6 @@ func (p *printer) createPrefix(uri, preferred string) (string, bool) {
 
 	// Need to define a new namespace prefix
 	e := &p.elements[len(p.elements)-1]
-	if e.nsToPrefix == nil {
-		e.nsToPrefix = make(map[string]string)
-		e.prefixToNS = make(map[string]string)
-	}
 
 	// Pick a name. Try to use the final element of the path but fall back to _.
 	prefix := preferred
@@ -483,10 +514,7 @@ func (p *printer) createPrefix(uri, preferred string) (string, bool) {
 		}
 	}
 
-	if e.nsToPrefix[uri] == "" {
-		e.nsToPrefix[uri] = prefix
-	}
-	e.prefixToNS[prefix] = uri
+	e.declarePrefix(prefix, uri)
 
 	return prefix, true
 }
@@ -640,7 +668,8 @@ func (p *printer) marshalValue(val reflect.Value, finfo *fieldInfo, startTemplat
 	// If an empty name was found, namespace is overridden with an empty space
 	if tinfo.xmlname != nil && start.Name.Space == "" &&
 		tinfo.xmlname.xmlns == "" && tinfo.xmlname.name == "" &&
-		len(p.elements) != 0 && p.elements[len(p.elements)-1].xmlns != "" {
+		len(p.elements) != 0 && p.elements[len(p.elements)-1].xmlns != "" &&
+		!declaresDefault(start.Attr) {
 		start.Attr = append(start.Attr, Attr{Name{Space: "", Local: xmlnsPrefix}, ""})
 	}
 
@@ -671,6 +700,16 @@ func (p *printer) marshalValue(val reflect.Value, finfo *fieldInfo, startTemplat
 	return p.cachedWriteError()
 }
 
+// declaresDefault reports whether the attributes declare a default namespace.
+func declaresDefault(attrs []Attr) bool {
+	for _, attr := range attrs {
+		if attr.Name.Space == "" && attr.Name.Local == xmlnsPrefix {
+			return true
+		}
+	}
+	return false
+}
+
 // marshalAttr marshals an attribute with the given name and value, adding to start.Attr.
 func (p *printer) marshalAttr(start *StartElement, name Name, val reflect.Value) error {
 	tai := getTypeImpl(val.Type())
@@ -820,48 +859,36 @@ func (p *printer) writeStart(start *StartElement) error {
 	p.elements = append(p.elements, newElement(start.Name))
 	e := &p.elements[len(p.elements)-1]
 
-	// Set the namespace prefix, if necessary
-	var spaceDefined bool
-	if e.xmlns != "" {
-		// Try to avoid needing a prefix first.
-		for _, attr := range start.Attr {
-			if attr.Name.Space == "" && attr.Name.Local == xmlnsPrefix && attr.Value == e.xmlns {
-				spaceDefined = true
-				break
-			}
-		}
-		// Walk up the tree to see if a default namespace is already defined without a prefix.
-		if !spaceDefined && e.prefix == "" {
-			for i := len(p.elements) - 2; i >= 0; i-- {
-				if p.elements[i].prefix == "" && p.elements[i].xmlns == e.xmlns {
-					spaceDefined = true
-					break
-				}
-			}
-		}
-		// Locate an eventual prefix. If none, the XML is <tag name and no short notation is used
-		if !spaceDefined && e.prefix == "" {
-			// Look for an xmlns:prefix="uri" attribute that matches tag
-			for _, attr := range start.Attr {
-				if attr.Name.Space == xmlnsURL && attr.Name.Local != "" && attr.Value == e.xmlns {
-					e.prefix, _ = p.createPrefix(attr.Value, attr.Name.Local)
-					spaceDefined = true
-					break
-				}
-			}
+	// Namespace declarations among the attributes are in scope for the whole tag.
+	for _, attr := range start.Attr {
+		switch {
+		case attr.Name.Space == xmlnsURL:
+			_, local := splitPrefixed(attr.Name.Local)
+			e.declarePrefix(local, attr.Value)
+		case attr.Name.Space == "" && attr.Name.Local == xmlnsPrefix:
+			e.declareDefault(attr.Value)
 		}
-		if !spaceDefined && e.prefix == "" {
-			e.prefix = p.getPrefix(e.xmlns)
-			if e.prefix != "" {
-				spaceDefined = true
-			}
+	}
+
+	// Set the namespace prefix, if necessary
+	var spaceDefined, prefixCreated bool
+	if e.xmlns != "" && e.prefix == "" {
+		if p.inDefaultNS(e.xmlns) {
+			// No prefix needed.
+			spaceDefined = true
+		} else if prefix := p.getPrefix(e.xmlns); prefix != "" {
+			e.prefix = prefix
+			spaceDefined = true
+		} else if e.hasDefault {
+			// The default namespace of the tag is another one.
+			e.prefix, prefixCreated = p.createPrefix(e.xmlns, "")
+			spaceDefined = true
 		}
 	}
 
 	p.writeIndent(1) // handling relative depth of a tag
 	p.WriteByte('<')
 	if e.prefix != "" {
-		var prefixCreated bool
 		if e.xmlns != "" && !spaceDefined {
 			e.prefix, prefixCreated = p.createPrefix(e.xmlns, e.prefix)
 		}
@@ -878,6 +905,7 @@ func (p *printer) writeStart(start *StartElement) error {
 			p.WriteString(` xmlns="`)
 			p.EscapeString(e.xmlns)
 			p.WriteByte('"')
+			e.declareDefault(e.xmlns)
 		}
 	} else {
 		p.WriteString(e.name)
@@ -891,7 +919,6 @@ func (p *printer) writeStart(start *StartElement) error {
 		prefix, local := splitPrefixed(attr.Name.Local)
 		p.WriteByte(' ')
 		if attr.Name.Space == xmlnsURL {
-			p.createPrefix(attr.Value, local)
 			p.WriteString(xmlnsPrefix)
 			p.WriteByte(':')
 		} else if attr.Name.Space != "" {
-- 
2.43.0


From 8cb68cb9b81a7205bef87f2c63fa082d508d84b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:20 +0000
Subject: [PATCH 12/37] fix: EncodeToken must reject comments with -- and late
 xml declarations

A comment containing -- or ending with - is not well-formed, and an xml
declaration was accepted in mid-document as soon as the buffer happened to be
flushed.
---
 xml/marshal.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index 70db095..5f096e7 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -190,6 +190,7 @@ func ReleaseEncoder(enc *Encoder) {
 	enc.p.depth = 0
 	enc.p.indentedIn = false
 	enc.p.putNewline = false
+	enc.p.started = false
 	enc.p.closed = false
 	enc.p.err = nil
 	// Truncate the elements slice without releasing its backing array.
@@ -270,6 +271,9 @@ func (enc *Encoder) EncodeToken(t Token) error {
 		if bytes.Contains(t, endComment) {
 			return fmt.Errorf("xml: EncodeToken of Comment containing --> marker")
 		}
+		if bytes.Contains(t, ddBytes) || bytes.HasSuffix(t, ddBytes[:1]) {
+			return fmt.Errorf(`xml: EncodeToken of Comment containing "--" or ending with "-"`)
+		}
 		p.WriteString("<!--")
 		p.Write(t)
 		p.WriteString("-->")
@@ -277,7 +281,7 @@ func (enc *Encoder) EncodeToken(t Token) error {
 	case ProcInst:
 		// First token to be encoded which is also a ProcInst with target of xml
 		// is the xml declaration. The only ProcInst where target of xml is allowed.
-		if t.Target == "xml" && p.w.Buffered() != 0 {
+		if t.Target == "xml" && p.started {
 			return fmt.Errorf("xml: EncodeToken of ProcInst xml target only valid for xml declaration, first token encoded")
 		}
 		if !isNameString(t.Target) {
@@ -427,6 +431,7 @@ type printer struct {
 	indentedIn bool
 	putNewline bool
 	elements   []element
+	started    bool // something has been written
 	closed     bool
 	err        error
 }
@@ -1187,6 +1192,7 @@ func (p *printer) Write(b []byte) (n int, err error) {
 		p.err = errors.New("use of closed Encoder")
 	}
 	if p.err == nil {
+		p.started = p.started || len(b) > 0
 		n, p.err = p.w.Write(b)
 	}
 	return n, p.err
@@ -1198,6 +1204,7 @@ func (p *printer) WriteString(s string) (n int, err error) {
 		p.err = errors.New("use of closed Encoder")
 	}
 	if p.err == nil {
+		p.started = p.started || len(s) > 0
 		n, p.err = p.w.WriteString(s)
 	}
 	return n, p.err
@@ -1209,6 +1216,7 @@ func (p *printer) WriteByte(c byte) error {
 		p.err = errors.New("use of closed Encoder")
 	}
 	if p.err == nil {
+		p.started = true
 		p.err = p.w.WriteByte(c)
 	}
 	return p.err
-- 
2.43.0


From 03edb0a0d80e183fbc692f9eff9027fb28a4f6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:00 +0000
Subject: [PATCH 13/37] fix: white space around the child elements of an Event
 is not its value

It was read into Event.Value and written back in front of the children, so
that an indented manifest grew by every hop through a relay.
---
 mpd/mpd.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 754bff0..6cdd505 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -240,6 +240,26 @@ type EventType struct {
 	SpliceInfoSection    *SpliceInfoSectionType          `xml:"SpliceInfoSection,omitempty"` // SCTE-35 SpliceInfoSection, direct form
 }
 
+// UnmarshalXML reads an event. White space around child elements is not event data.
+func (e *EventType) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
+	type plain EventType
+	if err := d.DecodeElement((*plain)(e), &start); err != nil {
+		return err
+	}
+	if e.hasElements() {
+		e.Value = strings.Trim(e.Value, " \t\r\n")
+	}
+	return nil
+}
+
+// hasElements reports whether the event has any child element.
+func (e *EventType) hasElements() bool {
+	return e.SelectionInfo != nil || e.ServiceDescription != nil ||
+		e.InsertPresentation != nil || e.ReplacePresentation != nil ||
+		len(e.SupplementalProperty) > 0 || len(e.EssentialProperty) > 0 ||
+		e.Signal != nil || e.SpliceInfoSection != nil
+}
+
 // SelectionInfoType is SelectionInfo
 type SelectionInfoType struct {
 	SelectionInfo string           `xml:"selectionInfo,attr,omitempty"`
-- 
2.43.0


From bc6003d2eb5914d44d0c2300b7e88071c3c08eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:44 +0000
Subject: [PATCH 14/37] fix: > in character data must not stall the parser

text() left the > for a later call that would not consume it, so that parsing
any document with > in its text never ended.
---
 xml/xml.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/xml/xml.go b/xml/xml.go
index d044c43..1d65454 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -1063,11 +1063,6 @@ Input:
 			d.ungetc('<')
 			break Input
 		}
-		// This occurs only for an unquoted attr name.
-		if b == '>' && !cdata && quote < 0 { // Possible end of tag reached
-			d.ungetc('>') // Leaving end of tag available
-			break         // returning text
-		}
 		if quote >= 0 && b == byte(quote) {
 			break Input
 		}
-- 
2.43.0


From e240eac26e0f5fb530cceeac90317c3ed4778b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:53 +0000
Subject: [PATCH 15/37] fix: keep the namespace of an MPD that arrives with a
 prefix

---
 mpd/mpd.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 6cdd505..62065e7 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -128,6 +128,19 @@ func (m *MPD) GetType() string {
 	return *m.Type
 }
 
+// UnmarshalXML reads an MPD. The namespace of a prefixed document element is kept as
+// the default namespace, since the elements are written without prefix.
+func (m *MPD) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
+	type plain MPD
+	if err := d.DecodeElement((*plain)(m), &start); err != nil {
+		return err
+	}
+	if m.XMLNs == "" {
+		m.XMLNs = start.Name.Space
+	}
+	return nil
+}
+
 // Clone creates a deep copy of mpd and sets parents.
 func Clone(mpd *MPD) *MPD {
 	cm := deepcopy.MustAnything(mpd).(*MPD)
-- 
2.43.0


From d20828843ae4ae636bc90d25ed2d2f03e2c5a153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:06 +0000
Subject: [PATCH 16/37] fix: PrivateBytes belongs to the SCTE-35 namespace of
 its parent

---
 mpd/scte35.go | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/mpd/scte35.go b/mpd/scte35.go
index 5867dad..eb6e5d0 100644
--- a/mpd/scte35.go
+++ b/mpd/scte35.go
@@ -309,6 +309,32 @@ type PrivateCommandType struct {
 	PrivateBytes string   `xml:"PrivateBytes,omitempty"` // xsd:hexBinary
 }
 
+// MarshalXML writes the command with PrivateBytes in the command's own namespace.
+func (c *PrivateCommandType) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
+	type plain PrivateCommandType
+	if c.XMLName.Local != "" {
+		start.Name = c.XMLName
+	}
+	return e.EncodeElement(&struct {
+		*plain
+		PrivateBytes *privateBytesType `xml:"PrivateBytes"`
+	}{(*plain)(c), newPrivateBytes(start.Name.Space, c.PrivateBytes)}, start)
+}
+
+// privateBytesType is the written form of a <PrivateBytes> child element.
+type privateBytesType struct {
+	XMLName xml.Name
+	Value   string `xml:",chardata"`
+}
+
+// newPrivateBytes returns the written form of value, or nil if there is none.
+func newPrivateBytes(namespace, value string) *privateBytesType {
+	if value == "" {
+		return nil
+	}
+	return &privateBytesType{XMLName: xml.Name{Space: namespace, Local: "PrivateBytes"}, Value: value}
+}
+
 // SpliceTimeType is the splice_time() structure carrying a PTS-domain time.
 // ptsTime is optional (absent indicates a time-specified-flag of 0 in the
 // binary form).
@@ -459,6 +485,18 @@ type PrivateDescriptorType struct {
 	PrivateBytes  string     `xml:"PrivateBytes,omitempty"` // xsd:hexBinary
 }
 
+// MarshalXML writes the descriptor with PrivateBytes in the descriptor's own namespace.
+func (d *PrivateDescriptorType) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
+	type plain PrivateDescriptorType
+	if d.XMLName.Local != "" {
+		start.Name = d.XMLName
+	}
+	return e.EncodeElement(&struct {
+		*plain
+		PrivateBytes *privateBytesType `xml:"PrivateBytes"`
+	}{(*plain)(d), newPrivateBytes(start.Name.Space, d.PrivateBytes)}, start)
+}
+
 // ExtType is the SCTE-35 extensibility element. It can appear inside almost
 // every SCTE-35 type and accepts arbitrary attributes and child elements
 // (xs:any processContents="lax"). InnerXML captures the raw nested XML so
-- 
2.43.0


From f1b36779a63c35a5a3060648326fdbdd8029d587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:17 +0000
Subject: [PATCH 17/37] fix: a start tag must not rebind a namespace prefix it
 uses

---
 xml/marshal.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/xml/marshal.go b/xml/marshal.go
index 5f096e7..b2182d8 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -476,11 +476,20 @@ func (p *printer) inDefaultNS(uri string) bool {
 	return false
 }
 
+// usePrefix records that the innermost tag uses the prefix bound to uri by an
+// enclosing tag, so that it does not bind the prefix to another namespace as well.
+func (p *printer) usePrefix(prefix, uri string) {
+	if len(p.elements) > 0 {
+		p.elements[len(p.elements)-1].declarePrefix(prefix, uri)
+	}
+}
+
 // createPrefix finds a prefix to use for the given namespace URI,
 // defining a new prefix if necessary. It returns the prefix.
 // If set, it will attempt to use preferred as the prefix.
 func (p *printer) createPrefix(uri, preferred string) (string, bool) {
 	if prefix := p.getPrefix(uri); prefix != "" && (prefix == preferred || preferred == "") {
+		p.usePrefix(prefix, uri)
 		return prefix, false
 	}
 
@@ -882,6 +891,7 @@ func (p *printer) writeStart(start *StartElement) error {
 			// No prefix needed.
 			spaceDefined = true
 		} else if prefix := p.getPrefix(e.xmlns); prefix != "" {
+			p.usePrefix(prefix, e.xmlns)
 			e.prefix = prefix
 			spaceDefined = true
 		} else if e.hasDefault {
-- 
2.43.0


From 98ec1eeafe6a0f3806a9e478aa90cf53f64cc685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:44 +0000
Subject: [PATCH 18/37] fix: the declaration of a prefix is not the attribute
 of that name

---
 xml/read.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xml/read.go b/xml/read.go
index 1c19b12..775eea6 100644
--- a/xml/read.go
+++ b/xml/read.go
@@ -480,8 +480,9 @@ func (d *Decoder) unmarshal(val reflect.Value, start *StartElement, depth int) e
 		for _, a := range start.Attr {
 			// Try exact match (namespace + local name) first.
 			fi, ok := tinfo.attrs[attrKey{a.Name.Space, a.Name.Local}]
-			if !ok {
-				// A field registered with empty xmlns matches any namespace.
+			if !ok && a.Name.Space != xmlnsURL {
+				// A field registered with empty xmlns matches any namespace,
+				// but a prefix declaration is no attribute value.
 				fi, ok = tinfo.attrs[attrKey{"", a.Name.Local}]
 			}
 			if ok {
-- 
2.43.0


From 8ea0eb31af1298463c0fb1796e3141b3d8015e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:14 +0000
Subject: [PATCH 19/37] fix: the longest durations must not round up out of
 range

---
 mpd/duration.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpd/duration.go b/mpd/duration.go
index 8520162..23fdee0 100644
--- a/mpd/duration.go
+++ b/mpd/duration.go
@@ -70,6 +70,9 @@ func (d *Duration) String() string {
 	// Milliseconds in total, rounded to nearest, so that a fraction rounding
 	// up to a full second carries into the seconds.
 	total := (u + uint64(time.Millisecond)/2) / uint64(time.Millisecond)
+	if total > math.MaxInt64/uint64(time.Millisecond) {
+		total-- // the rounded value would be out of range
+	}
 	s := total / 1000
 	ms := total % 1000
 
-- 
2.43.0


From 9a3c40da356bd128ad58b76aa533abbfd4c91043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:40 +0000
Subject: [PATCH 20/37] fix: a prefixed MPD is in its own namespace, not the
 default one

---
 mpd/mpd.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 62065e7..3921b51 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -128,16 +128,14 @@ func (m *MPD) GetType() string {
 	return *m.Type
 }
 
-// UnmarshalXML reads an MPD. The namespace of a prefixed document element is kept as
-// the default namespace, since the elements are written without prefix.
+// UnmarshalXML reads an MPD. The namespace of the document element, whether it is
+// prefixed or not, is the default namespace of what is written from it.
 func (m *MPD) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	type plain MPD
 	if err := d.DecodeElement((*plain)(m), &start); err != nil {
 		return err
 	}
-	if m.XMLNs == "" {
-		m.XMLNs = start.Name.Space
-	}
+	m.XMLNs = start.Name.Space
 	return nil
 }
 
-- 
2.43.0


From 2b72e102a99aeb7cc6130acdbdc74f625d15a174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:09 +0000
Subject: [PATCH 21/37] fix: an element's own namespace declaration comes first
 when it is replayed

Unknown attributes include the namespace declarations of a tag. A relay wrote
the ones it had added itself before the attributes and, at the next hop, after
them, so the bytes changed once more.
---
 xml/marshal.go | 56 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index b2182d8..af7e158 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -886,6 +886,7 @@ func (p *printer) writeStart(start *StartElement) error {
 
 	// Set the namespace prefix, if necessary
 	var spaceDefined, prefixCreated bool
+	var ownDecl Name // the attribute that declares the namespace of the element
 	if e.xmlns != "" && e.prefix == "" {
 		if p.inDefaultNS(e.xmlns) {
 			// No prefix needed.
@@ -914,6 +915,7 @@ func (p *printer) writeStart(start *StartElement) error {
 			p.WriteByte(' ')
 			p.writePrefixAttr(e.prefix, e.xmlns)
 		}
+		ownDecl = Name{Space: xmlnsURL, Local: e.prefix}
 	} else if e.xmlns != "" {
 		p.WriteString(e.name)
 		if !spaceDefined {
@@ -922,39 +924,53 @@ func (p *printer) writeStart(start *StartElement) error {
 			p.WriteByte('"')
 			e.declareDefault(e.xmlns)
 		}
+		ownDecl = Name{Local: xmlnsPrefix}
 	} else {
 		p.WriteString(e.name)
 	}
 
+	// The declaration of the element's own namespace comes first, as it does when
+	// the printer adds it, so that writing what was read gives the same tag again.
+	for _, attr := range start.Attr {
+		if attr.Name.Local != "" && attr.Name == ownDecl {
+			p.writeAttr(attr)
+		}
+	}
+
 	// Attributes
 	for _, attr := range start.Attr {
-		if attr.Name.Local == "" {
+		if attr.Name.Local == "" || attr.Name == ownDecl {
 			continue
 		}
-		prefix, local := splitPrefixed(attr.Name.Local)
-		p.WriteByte(' ')
-		if attr.Name.Space == xmlnsURL {
-			p.WriteString(xmlnsPrefix)
-			p.WriteByte(':')
-		} else if attr.Name.Space != "" {
-			var prefixCreated bool
-			prefix, prefixCreated = p.createPrefix(attr.Name.Space, prefix)
-			if prefixCreated {
-				p.writePrefixAttr(prefix, attr.Name.Space)
-				p.WriteByte(' ')
-			}
-			p.WriteString(prefix)
-			p.WriteByte(':')
-		}
-		p.WriteString(local)
-		p.WriteString(`="`)
-		p.EscapeString(attr.Value)
-		p.WriteByte('"')
+		p.writeAttr(attr)
 	}
 	p.WriteByte('>')
 	return nil
 }
 
+// writeAttr writes the given attribute of the innermost tag.
+func (p *printer) writeAttr(attr Attr) {
+	prefix, local := splitPrefixed(attr.Name.Local)
+	p.WriteByte(' ')
+	if attr.Name.Space == xmlnsURL {
+		p.WriteString(xmlnsPrefix)
+		p.WriteByte(':')
+	} else if attr.Name.Space != "" {
+		var prefixCreated bool
+		prefix, prefixCreated = p.createPrefix(attr.Name.Space, prefix)
+		if prefixCreated {
+			p.writePrefixAttr(prefix, attr.Name.Space)
+			p.WriteByte(' ')
+		}
+		p.WriteString(prefix)
+		p.WriteByte(':')
+	}
+	p.WriteString(local)
+	p.WriteString(`="`)
+	p.EscapeString(attr.Value)
+	p.WriteByte('"')
+}
+
 func (p *printer) writeEnd(name Name) error {
 	if name.Local == "" {
 		return fmt.Errorf("xml: end tag with no name")
-- 
2.43.0


From 1260e485e942cb79b9e21f9251609aafe4fe2c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:17 +0000
Subject: [PATCH 22/37] fix: an attribute of a repeated element must not be
 written twice

Unknown attributes of the repetitions of an element that the API holds once
accumulated, and writing them gave a tag with the same attribute twice.
---
 xml/read.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/xml/read.go b/xml/read.go
index 775eea6..e4e9533 100644
--- a/xml/read.go
+++ b/xml/read.go
@@ -286,8 +286,18 @@ func (d *Decoder) unmarshalAttr(val reflect.Value, attr Attr) error {
 
 	if val.Type().Kind() == reflect.Slice && val.Type().Elem().Kind() != reflect.Uint8 {
 		// Slice of element values.
-		// Grow slice.
 		n := val.Len()
+		if val.Type().Elem() == attrType {
+			// When an element is repeated, attributes given again replace
+			// the earlier ones: a tag must not have the same attribute twice.
+			for i := range n {
+				if val.Index(i).Interface().(Attr).Name == attr.Name {
+					val.Index(i).Set(reflect.ValueOf(attr))
+					return nil
+				}
+			}
+		}
+		// Grow slice.
 		val.Grow(1)
 		val.SetLen(n + 1)
 
-- 
2.43.0


From d4b73d6fb20e015b945b0104ce4c46ce0eb4437f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:17 +0000
Subject: [PATCH 23/37] fix: an element without a namespace must not be moved
 into the default one

A SCTE-35 element read without namespace was written bare, which put it into
the DASH namespace, and written with that namespace from the next hop on.
---
 xml/marshal.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index af7e158..40749af 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -476,6 +476,16 @@ func (p *printer) inDefaultNS(uri string) bool {
 	return false
 }
 
+// defaultNS returns the default namespace in scope.
+func (p *printer) defaultNS() string {
+	for i := len(p.elements) - 1; i >= 0; i-- {
+		if e := &p.elements[i]; e.hasDefault {
+			return e.defaultNS
+		}
+	}
+	return ""
+}
+
 // usePrefix records that the innermost tag uses the prefix bound to uri by an
 // enclosing tag, so that it does not bind the prefix to another namespace as well.
 func (p *printer) usePrefix(prefix, uri string) {
@@ -619,6 +629,7 @@ func (p *printer) marshalValue(val reflect.Value, finfo *fieldInfo, startTemplat
 	// 2. field name/tag in the struct field; and
 	// 3. type name
 	var start StartElement
+	var replayed bool // the name is one that was read
 
 	if startTemplate != nil {
 		start.Name = startTemplate.Name
@@ -631,6 +642,7 @@ func (p *printer) marshalValue(val reflect.Value, finfo *fieldInfo, startTemplat
 			fv := xmlname.value(val, dontInitNilPointers)
 			if v, ok := fv.Interface().(Name); ok && v.Local != "" {
 				start.Name = v
+				replayed = true
 			}
 		}
 	} else {
@@ -682,7 +694,7 @@ func (p *printer) marshalValue(val reflect.Value, finfo *fieldInfo, startTemplat
 	// If an empty name was found, namespace is overridden with an empty space
 	if tinfo.xmlname != nil && start.Name.Space == "" &&
 		tinfo.xmlname.xmlns == "" && tinfo.xmlname.name == "" &&
-		len(p.elements) != 0 && p.elements[len(p.elements)-1].xmlns != "" &&
+		len(p.elements) != 0 && (p.elements[len(p.elements)-1].xmlns != "" || replayed && p.defaultNS() != "") &&
 		!declaresDefault(start.Attr) {
 		start.Attr = append(start.Attr, Attr{Name{Space: "", Local: xmlnsPrefix}, ""})
 	}
-- 
2.43.0


From d8c23b635cd28cf1e67907e3b0a48b5694da453e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:07 +0000
Subject: [PATCH 24/37] fix: writing a nil embedded struct with mandatory
 attributes must not panic

A ReplacePresentation read without any attribute of its embedded type could
not be written again.
---
 xml/marshal.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index 40749af..c6d2634 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -677,7 +677,10 @@ func (p *printer) marshalValue(val reflect.Value, finfo *fieldInfo, startTemplat
 
 		fv := finfo.value(val, dontInitNilPointers)
 
-		if finfo.flags&fOmitEmpty != 0 && (!fv.IsValid() || isEmptyValue(fv)) {
+		if !fv.IsValid() {
+			continue // field of a nil embedded struct
+		}
+		if finfo.flags&fOmitEmpty != 0 && isEmptyValue(fv) {
 			continue
 		}
 
-- 
2.43.0


From b73f4b9a8704ac258f506c157b649d3b89118f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:40 +0000
Subject: [PATCH 25/37] fix: keep using an element's own prefix among several
 for its namespace

---
 xml/marshal.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xml/marshal.go b/xml/marshal.go
index c6d2634..5abd7cc 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -931,6 +931,11 @@ func (p *printer) writeStart(start *StartElement) error {
 			p.writePrefixAttr(e.prefix, e.xmlns)
 		}
 		ownDecl = Name{Space: xmlnsURL, Local: e.prefix}
+		if e.nsToPrefix != nil && e.prefixToNS[e.prefix] == e.xmlns {
+			// Of several prefixes for the namespace, the element's own, which
+			// is declared first, is the one that goes on being used.
+			e.nsToPrefix[e.xmlns] = e.prefix
+		}
 	} else if e.xmlns != "" {
 		p.WriteString(e.name)
 		if !spaceDefined {
-- 
2.43.0


From 0d403522b507a22809e9cca4507d610a57b00522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:32 +0000
Subject: [PATCH 26/37] fix: a private command or descriptor keeps having no
 namespace

---
 mpd/scte35.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/mpd/scte35.go b/mpd/scte35.go
index eb6e5d0..9a87bd4 100644
--- a/mpd/scte35.go
+++ b/mpd/scte35.go
@@ -312,13 +312,17 @@ type PrivateCommandType struct {
 // MarshalXML writes the command with PrivateBytes in the command's own namespace.
 func (c *PrivateCommandType) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
 	type plain PrivateCommandType
-	if c.XMLName.Local != "" {
-		start.Name = c.XMLName
-	}
-	return e.EncodeElement(&struct {
+	elem := &struct {
+		XMLName xml.Name
 		*plain
 		PrivateBytes *privateBytesType `xml:"PrivateBytes"`
-	}{(*plain)(c), newPrivateBytes(start.Name.Space, c.PrivateBytes)}, start)
+	}{XMLName: c.XMLName, plain: (*plain)(c)}
+	if c.XMLName.Local != "" {
+		elem.PrivateBytes = newPrivateBytes(c.XMLName.Space, c.PrivateBytes)
+		return e.Encode(elem) // under XMLName
+	}
+	elem.PrivateBytes = newPrivateBytes(start.Name.Space, c.PrivateBytes)
+	return e.EncodeElement(elem, start)
 }
 
 // privateBytesType is the written form of a <PrivateBytes> child element.
@@ -488,13 +492,17 @@ type PrivateDescriptorType struct {
 // MarshalXML writes the descriptor with PrivateBytes in the descriptor's own namespace.
 func (d *PrivateDescriptorType) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
 	type plain PrivateDescriptorType
-	if d.XMLName.Local != "" {
-		start.Name = d.XMLName
-	}
-	return e.EncodeElement(&struct {
+	elem := &struct {
+		XMLName xml.Name
 		*plain
 		PrivateBytes *privateBytesType `xml:"PrivateBytes"`
-	}{(*plain)(d), newPrivateBytes(start.Name.Space, d.PrivateBytes)}, start)
+	}{XMLName: d.XMLName, plain: (*plain)(d)}
+	if d.XMLName.Local != "" {
+		elem.PrivateBytes = newPrivateBytes(d.XMLName.Space, d.PrivateBytes)
+		return e.Encode(elem) // under XMLName
+	}
+	elem.PrivateBytes = newPrivateBytes(start.Name.Space, d.PrivateBytes)
+	return e.EncodeElement(elem, start)
 }
 
 // ExtType is the SCTE-35 extensibility element. It can appear inside almost
-- 
2.43.0


From 17153d56f63e6dc0e8cb85d0331512c3ff043056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:23 +0000
Subject: [PATCH 27/37] fix: finding earlier attributes of a repeated element
 must not be quadratic

---
 xml/read.go | 49 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/xml/read.go b/xml/read.go
index e4e9533..14b1422 100644
--- a/xml/read.go
+++ b/xml/read.go
@@ -251,6 +251,34 @@ func (d *Decoder) unmarshalTextInterface(val encoding.TextUnmarshaler) error {
 	return val.UnmarshalText(buf)
 }
 
+// attrIndex finds attributes by name in a growing list.
+type attrIndex struct {
+	at map[Name]int
+	n  int // length of the list prefix that is in the map
+}
+
+// find returns the index of the attribute with the given name, or -1.
+func (x *attrIndex) find(attrs []Attr, name Name) int {
+	if len(attrs) <= 8 {
+		for i := range attrs {
+			if attrs[i].Name == name {
+				return i
+			}
+		}
+		return -1
+	}
+	if x.at == nil {
+		x.at = make(map[Name]int)
+	}
+	for ; x.n < len(attrs); x.n++ {
+		x.at[attrs[x.n].Name] = x.n
+	}
+	if i, ok := x.at[name]; ok {
+		return i
+	}
+	return -1
+}
+
 // unmarshalAttr unmarshals a single XML attribute into val.
 func (d *Decoder) unmarshalAttr(val reflect.Value, attr Attr) error {
 	if val.Kind() == reflect.Pointer {
@@ -286,18 +314,8 @@ func (d *Decoder) unmarshalAttr(val reflect.Value, attr Attr) error {
 
 	if val.Type().Kind() == reflect.Slice && val.Type().Elem().Kind() != reflect.Uint8 {
 		// Slice of element values.
-		n := val.Len()
-		if val.Type().Elem() == attrType {
-			// When an element is repeated, attributes given again replace
-			// the earlier ones: a tag must not have the same attribute twice.
-			for i := range n {
-				if val.Index(i).Interface().(Attr).Name == attr.Name {
-					val.Index(i).Set(reflect.ValueOf(attr))
-					return nil
-				}
-			}
-		}
 		// Grow slice.
+		n := val.Len()
 		val.Grow(1)
 		val.SetLen(n + 1)
 
@@ -486,6 +504,7 @@ func (d *Decoder) unmarshal(val reflect.Value, start *StartElement, depth int) e
 			}
 		}
 
+		var anyAttrs attrIndex
 		// Assign attributes using the O(1) map on typeInfo.
 		for _, a := range start.Attr {
 			// Try exact match (namespace + local name) first.
@@ -504,6 +523,14 @@ func (d *Decoder) unmarshal(val reflect.Value, start *StartElement, depth int) e
 			}
 			if tinfo.anyAttr != nil {
 				strv := tinfo.anyAttr.value(sv, initNilPointers)
+				if attrs, ok := strv.Addr().Interface().(*[]Attr); ok {
+					// When an element is repeated, attributes given again replace
+					// the earlier ones: a tag must not have the same attribute twice.
+					if i := anyAttrs.find(*attrs, a.Name); i >= 0 {
+						(*attrs)[i] = a
+						continue
+					}
+				}
 				if err := d.unmarshalAttr(strv, a); err != nil {
 					return err
 				}
-- 
2.43.0


From f24942eb8f7e6f85f3567a9bdee51e166161e0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:30 +0000
Subject: [PATCH 28/37] fix: EmptyAdaptationSets and what they contain have
 parents too

---
 mpd/parents.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mpd/parents.go b/mpd/parents.go
index 6bbc61c..68f908a 100644
--- a/mpd/parents.go
+++ b/mpd/parents.go
@@ -14,6 +14,15 @@ func (m *MPD) SetParents() {
 				}
 			}
 		}
+		p.setParentsOfEmpty()
+	}
+}
+
+// setParentsOfEmpty sets the parent pointers of the EmptyAdaptationSets of p.
+func (p *Period) setParentsOfEmpty() {
+	for _, a := range p.EmptyAdaptationSets {
+		a.SetParent(p)
+		a.SetParents()
 	}
 }
 
@@ -34,6 +43,7 @@ func (p *Period) SetParents() {
 			}
 		}
 	}
+	p.setParentsOfEmpty()
 }
 
 // AppendAdaptationSet appends an AdaptationSet to the Period and sets parent pointer.
-- 
2.43.0


From 6d0492f7a78ce229b002dd46ea15d1efc8b0bccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:09 +0000
Subject: [PATCH 29/37] fix: an end element spelled like its start element must
 be accepted

---
 xml/marshal.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index 5abd7cc..ea334e1 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -372,6 +372,7 @@ func (enc *Encoder) Close() error {
 type element struct {
 	xmlns      string
 	prefix     string
+	given      string // prefix asked for, which prefix may replace
 	name       string
 	nsToPrefix map[string]string
 	prefixToNS map[string]string
@@ -403,6 +404,7 @@ func newElement(name Name) element {
 	var e element
 	e.xmlns = name.Space
 	e.prefix, e.name = splitPrefixed(name.Local)
+	e.given = e.prefix
 	return e
 }
 
@@ -1001,7 +1003,7 @@ func (p *printer) writeEnd(name Name) error {
 	e := p.elements[len(p.elements)-1]
 	prefix, local := splitPrefixed(name.Local)
 	// Tag prefixes do not match
-	if prefix != "" && e.prefix != "" && prefix != e.prefix {
+	if prefix != "" && e.prefix != "" && prefix != e.prefix && prefix != e.given {
 		return fmt.Errorf("xml: end prefix </%s:%s> does not match start prefix <%s:%s>", prefix, local, e.prefix, e.name)
 	}
 	// Tag names do not match
-- 
2.43.0


From 59b9e41f0c53f02fc63695732a21e6d65fa8ec50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:34 +0000
Subject: [PATCH 30/37] fix: a failed UnmarshalXML must not leave its end
 marker behind

---
 xml/read.go |  3 ++-
 xml/xml.go  | 13 +++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/xml/read.go b/xml/read.go
index 14b1422..cfa3185 100644
--- a/xml/read.go
+++ b/xml/read.go
@@ -215,11 +215,12 @@ func (d *Decoder) unmarshalInterface(val Unmarshaler, start *StartElement) error
 	err := val.UnmarshalXML(d, *start)
 	d.unmarshalDepth--
 	if err != nil {
-		d.popEOF()
+		d.dropEOF()
 		return err
 	}
 
 	if !d.popEOF() {
+		d.dropEOF()
 		return fmt.Errorf("xml: %s.UnmarshalXML did not consume entire <%s> element", receiverType(val), start.Name.Local)
 	}
 
diff --git a/xml/xml.go b/xml/xml.go
index 1d65454..e7c33b1 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -486,6 +486,19 @@ func (d *Decoder) popEOF() bool {
 	return true
 }
 
+// dropEOF undoes the most recent pushEOF when the element was not finished,
+// so that the EOF can be anywhere below the entries of the element.
+func (d *Decoder) dropEOF() {
+	for p := &d.stk; *p != nil; p = &(*p).next {
+		if s := *p; s.kind == stkEOF {
+			*p = s.next
+			s.next = d.free
+			d.free = s
+			return
+		}
+	}
+}
+
 // Record that we are starting an element with the given name.
 func (d *Decoder) pushElement(name Name) {
 	s := d.push(stkStart)
-- 
2.43.0


From a8cc96d187776671c92e8a01f5780edf7d7d2933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:57 +0000
Subject: [PATCH 31/37] fix: the prefixes of a document must not depend on
 earlier ones of its encoder

---
 xml/marshal.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/xml/marshal.go b/xml/marshal.go
index ea334e1..ea3ecce 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -496,6 +496,17 @@ func (p *printer) usePrefix(prefix, uri string) {
 	}
 }
 
+// inElement reports whether an element is open. The marks left by
+// marshalInterface are not elements.
+func (p *printer) inElement() bool {
+	for i := range p.elements {
+		if p.elements[i].name != "" {
+			return true
+		}
+	}
+	return false
+}
+
 // createPrefix finds a prefix to use for the given namespace URI,
 // defining a new prefix if necessary. It returns the prefix.
 // If set, it will attempt to use preferred as the prefix.
@@ -886,6 +897,11 @@ func (p *printer) writeStart(start *StartElement) error {
 		return fmt.Errorf("xml: start tag with no name")
 	}
 
+	if !p.inElement() {
+		// The prefixes of a document do not depend on earlier ones.
+		p.seq = 0
+	}
+
 	// Push a new XML element
 	p.elements = append(p.elements, newElement(start.Name))
 	e := &p.elements[len(p.elements)-1]
-- 
2.43.0


From 446a96fef28872945844d7700af84e5d07a85ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:16 +0000
Subject: [PATCH 32/37] fix: nested innerxml from a token source must not panic

---
 xml/read.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xml/read.go b/xml/read.go
index cfa3185..fa32443 100644
--- a/xml/read.go
+++ b/xml/read.go
@@ -416,6 +416,7 @@ func (d *Decoder) unmarshal(val reflect.Value, start *StartElement, depth int) e
 		saveComment  reflect.Value
 		saveXML      reflect.Value
 		saveXMLIndex int
+		ownSaved     bool // d.saved is for this element
 		saveXMLData  []byte
 		saveAny      reflect.Value
 		sv           reflect.Value
@@ -561,6 +562,7 @@ func (d *Decoder) unmarshal(val reflect.Value, start *StartElement, depth int) e
 				if !saveXML.IsValid() {
 					saveXML = finfo.value(sv, initNilPointers)
 					if d.saved == nil {
+						ownSaved = true
 						saveXMLIndex = 0
 						d.saved = new(bytes.Buffer)
 					} else {
@@ -609,7 +611,7 @@ Loop:
 		case EndElement:
 			if saveXML.IsValid() {
 				saveXMLData = d.saved.Bytes()[saveXMLIndex:savedOffset]
-				if saveXMLIndex == 0 {
+				if ownSaved {
 					d.saved = nil
 				}
 			}
-- 
2.43.0


From a960d3908d9656c9c215a00a9516c1d000cc862b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:15 +0000
Subject: [PATCH 33/37] fix: count nesting through UnmarshalXML methods towards
 the decoding depth limit

A document nested deeply enough in a type whose UnmarshalXML method calls
DecodeElement exhausted the stack, since every call started counting from 0.
---
 xml/read.go | 11 +++++++----
 xml/xml.go  |  1 +
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/xml/read.go b/xml/read.go
index fa32443..acadaeb 100644
--- a/xml/read.go
+++ b/xml/read.go
@@ -157,7 +157,7 @@ func (d *Decoder) DecodeElement(v any, start *StartElement) error {
 	if val.IsNil() {
 		return errors.New("nil pointer passed to Unmarshal")
 	}
-	return d.unmarshal(val.Elem(), start, 0)
+	return d.unmarshal(val.Elem(), start, d.elemDepth)
 }
 
 // An UnmarshalError represents an error in the unmarshaling process.
@@ -207,12 +207,15 @@ func receiverType(val any) string {
 
 // unmarshalInterface unmarshals a single XML element into val.
 // start is the opening tag of the element.
-func (d *Decoder) unmarshalInterface(val Unmarshaler, start *StartElement) error {
+func (d *Decoder) unmarshalInterface(val Unmarshaler, start *StartElement, depth int) error {
 	// Record that decoder must stop at end tag corresponding to start.
 	d.pushEOF()
 
 	d.unmarshalDepth++
+	outer := d.elemDepth
+	d.elemDepth = depth + 1 // elements decoded by the method are nested in this one
 	err := val.UnmarshalXML(d, *start)
+	d.elemDepth = outer
 	d.unmarshalDepth--
 	if err != nil {
 		d.dropEOF()
@@ -388,13 +391,13 @@ func (d *Decoder) unmarshal(val reflect.Value, start *StartElement, depth int) e
 	if val.CanInterface() && val.Type().Implements(unmarshalerType) {
 		// This is an unmarshaler with a non-pointer receiver,
 		// so it's likely to be incorrect, but we do what we're told.
-		return d.unmarshalInterface(val.Interface().(Unmarshaler), start)
+		return d.unmarshalInterface(val.Interface().(Unmarshaler), start, depth)
 	}
 
 	if val.CanAddr() {
 		pv := val.Addr()
 		if pv.CanInterface() && pv.Type().Implements(unmarshalerType) {
-			return d.unmarshalInterface(pv.Interface().(Unmarshaler), start)
+			return d.unmarshalInterface(pv.Interface().(Unmarshaler), start, depth)
 		}
 	}
 
diff --git a/xml/xml.go b/xml/xml.go
index e7c33b1..46c026b 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -216,6 +216,7 @@ type Decoder struct {
 	linestart      int64
 	offset         int64
 	unmarshalDepth int
+	elemDepth      int               // depth of the element whose UnmarshalXML method is running
 	nameIntern     map[string]string // per-Decoder intern map for element/attribute names
 }
 
-- 
2.43.0


From a5aac26a91cd4287a94af0a098a806e0df98a4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:54 +0000
Subject: [PATCH 34/37] fix: ParseDuration must reject days after the T
 designator

---
 mpd/duration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpd/duration.go b/mpd/duration.go
index 23fdee0..fb19f16 100644
--- a/mpd/duration.go
+++ b/mpd/duration.go
@@ -251,7 +251,7 @@ func ParseDuration(str string) (time.Duration, error) {
 		if rank(unit) <= rank(lastUnit) {
 			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
 		}
-		if unit != 'D' && !afterT {
+		if (unit == 'D') == afterT {
 			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
 		}
 		if sawDot && unit != 'S' {
-- 
2.43.0


From 3a65d8b5eb1a4cebd1841fc67c0b7c9943407588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:49 +0000
Subject: [PATCH 35/37] fix: write infinite numbers as INF and -INF, as
 xs:double spells them

---
 mpd/mpd.go     |  3 +++
 xml/marshal.go | 10 +++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 3921b51..a449148 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -1278,6 +1278,9 @@ func (f *FloatInf64) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
 	if fl == math.Inf(+1) {
 		return xml.Attr{Name: name, Value: "INF"}, nil
 	}
+	if fl == math.Inf(-1) {
+		return xml.Attr{Name: name, Value: "-INF"}, nil
+	}
 	val := strconv.FormatFloat(fl, 'f', -1, 64)
 	return xml.Attr{Name: name, Value: val}, nil
 }
diff --git a/xml/marshal.go b/xml/marshal.go
index ea3ecce..c08e038 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -11,6 +11,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -1051,7 +1052,14 @@ func (p *printer) marshalSimple(typ reflect.Type, val reflect.Value) (string, []
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
 		return strconv.FormatUint(val.Uint(), 10), nil, nil
 	case reflect.Float32, reflect.Float64:
-		return strconv.FormatFloat(val.Float(), 'g', -1, val.Type().Bits()), nil, nil
+		f := val.Float()
+		switch {
+		case math.IsInf(f, +1):
+			return "INF", nil, nil // xs:double has no "+Inf"
+		case math.IsInf(f, -1):
+			return "-INF", nil, nil
+		}
+		return strconv.FormatFloat(f, 'g', -1, val.Type().Bits()), nil, nil
 	case reflect.String:
 		return val.String(), nil, nil
 	case reflect.Bool:
-- 
2.43.0


From 99eff8f562a151019c1764526ea1aa65839cfb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:39 +0000
Subject: [PATCH 36/37] fix: EncodeElement must keep the attributes of the
 start element it is given

---
 xml/marshal.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index c08e038..3ddf2e6 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -677,9 +677,10 @@ func (p *printer) marshalValue(val reflect.Value, finfo *fieldInfo, startTemplat
 		start.Name.Local = name
 	}
 
-	// Pre-size start.Attr to avoid repeated backing-array copies.
-	if cap(start.Attr) < tinfo.nAttrs {
-		start.Attr = make([]Attr, 0, tinfo.nAttrs)
+	// Pre-size start.Attr to avoid repeated backing-array copies, keeping the
+	// attributes of the start element given.
+	if n := len(start.Attr) + tinfo.nAttrs; cap(start.Attr) < n {
+		start.Attr = append(make([]Attr, 0, n), start.Attr...)
 	}
 
 	// Attributes
-- 
2.43.0


From 4e77d09967406f57d23f99548bc777326549664e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:12 +0000
Subject: [PATCH 37/37] fix: an attribute without a value must not swallow what
 follows it

In relaxed mode the byte after a valueless attribute was dropped, so that
<p nowrap>text</p> was a syntax error and <input checked/> an open element.
---
 xml/xml.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/xml/xml.go b/xml/xml.go
index 46c026b..0f27432 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -848,9 +848,6 @@ func (d *Decoder) rawToken() (Token, error) {
 	for {
 		d.space()
 		if b, ok = d.mustgetc(); !ok {
-			if len(attr) > 0 && !d.Strict {
-				break // When not strict, an attribute might end with EOF
-			}
 			return nil, d.err
 		}
 		if b == '/' {
@@ -885,6 +882,7 @@ func (d *Decoder) rawToken() (Token, error) {
 				d.err = d.syntaxError("attribute name without = in element")
 				return nil, d.err
 			}
+			d.ungetc(b)
 			a.Value = a.Name.Local
 		} else {
 			d.space()
-- 
2.43.0

