From e93d77b782e62537e06e06481b93a674362a6626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:34 +0000
Subject: [PATCH 01/41] fix: xml decoder no longer loops forever on a raw '>'
 in character data

---
 xml/xml.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/xml/xml.go b/xml/xml.go
index d044c43..1d65454 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -1063,11 +1063,6 @@ Input:
 			d.ungetc('<')
 			break Input
 		}
-		// This occurs only for an unquoted attr name.
-		if b == '>' && !cdata && quote < 0 { // Possible end of tag reached
-			d.ungetc('>') // Leaving end of tag available
-			break         // returning text
-		}
 		if quote >= 0 && b == byte(quote) {
 			break Input
 		}
-- 
2.43.0


From a83ba361e155ed2b825b9710962bdf25732e38ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:55 +0000
Subject: [PATCH 02/41] fix: Duration just below one second is rendered as PT1S
 instead of PT0S

---
 mpd/duration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpd/duration.go b/mpd/duration.go
index 3befc58..0356307 100644
--- a/mpd/duration.go
+++ b/mpd/duration.go
@@ -78,7 +78,7 @@ func (d *Duration) String() string {
 		// Time smaller than ms, return higher precision
 		w, u = fmtFrac(buf[:w], u, 9)
 		w = fmtInt(buf[:w], u)
-	case s == 0:
+	case s == 0 && ms < 1000:
 		// Time smaller than 1s, return ms
 		w, _ = fmtFrac(buf[:w], ms, 3)
 		w--
-- 
2.43.0


From 27ff80bdefbd2546996e71990bad07858f0bd053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:55 +0000
Subject: [PATCH 03/41] fix: ParseDuration rounds seconds to the nearest
 nanosecond instead of truncating

---
 mpd/duration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpd/duration.go b/mpd/duration.go
index 0356307..ba5ef6f 100644
--- a/mpd/duration.go
+++ b/mpd/duration.go
@@ -280,7 +280,7 @@ func ParseDuration(str string) (time.Duration, error) {
 			if err != nil {
 				return 0, newParseDurationError("error parsing Seconds")
 			}
-			total += time.Duration(f * float64(time.Second))
+			total += time.Duration(math.Round(f * float64(time.Second)))
 		}
 	}
 	if !seenAny {
-- 
2.43.0


From a1fc8f6537d8b9d8e4aae3f01df033f916fd77da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:55 +0000
Subject: [PATCH 04/41] fix: ParseDuration reports out-of-range durations
 instead of overflowing silently

---
 mpd/duration.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/mpd/duration.go b/mpd/duration.go
index ba5ef6f..65af19f 100644
--- a/mpd/duration.go
+++ b/mpd/duration.go
@@ -262,25 +262,37 @@ func ParseDuration(str string) (time.Duration, error) {
 			if err != nil {
 				return 0, newParseDurationError("error parsing Days")
 			}
-			total += time.Duration(n) * 24 * time.Hour
+			if total, err = addDuration(total, n, 24*time.Hour); err != nil {
+				return 0, err
+			}
 		case 'H':
 			n, err := strconv.ParseUint(numStr, 10, 64)
 			if err != nil {
 				return 0, newParseDurationError("error parsing Hours")
 			}
-			total += time.Duration(n) * time.Hour
+			if total, err = addDuration(total, n, time.Hour); err != nil {
+				return 0, err
+			}
 		case 'M':
 			n, err := strconv.ParseUint(numStr, 10, 64)
 			if err != nil {
 				return 0, newParseDurationError("error parsing Minutes")
 			}
-			total += time.Duration(n) * time.Minute
+			if total, err = addDuration(total, n, time.Minute); err != nil {
+				return 0, err
+			}
 		case 'S':
 			f, err := strconv.ParseFloat(numStr, 64)
 			if err != nil {
 				return 0, newParseDurationError("error parsing Seconds")
 			}
-			total += time.Duration(math.Round(f * float64(time.Second)))
+			f = math.Round(f * float64(time.Second))
+			if f >= math.MaxInt64 {
+				return 0, newParseDurationError("duration is out of range")
+			}
+			if total, err = addDuration(total, uint64(f), time.Nanosecond); err != nil {
+				return 0, err
+			}
 		}
 	}
 	if !seenAny {
@@ -289,6 +301,14 @@ func ParseDuration(str string) (time.Duration, error) {
 	return total, nil
 }
 
+// addDuration returns total + n*unit, or an error if that does not fit in a time.Duration.
+func addDuration(total time.Duration, n uint64, unit time.Duration) (time.Duration, error) {
+	if n > uint64((math.MaxInt64-total)/unit) {
+		return 0, newParseDurationError("duration is out of range")
+	}
+	return total + time.Duration(n)*unit, nil
+}
+
 // Seconds returns the duration as a floating point number of seconds.
 func (d *Duration) Seconds() float64 {
 	return float64(*d) / float64(time.Second)
-- 
2.43.0


From dc1114a1758059dc7ef4e096a8d8aa7ef590a52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:55 +0000
Subject: [PATCH 05/41] fix: ParseDuration rejects days after T, a dangling T
 and incomplete decimals

---
 mpd/duration.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mpd/duration.go b/mpd/duration.go
index 65af19f..7d015ce 100644
--- a/mpd/duration.go
+++ b/mpd/duration.go
@@ -245,12 +245,15 @@ func ParseDuration(str string) (time.Duration, error) {
 		if rank(unit) <= rank(lastUnit) {
 			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
 		}
-		if unit != 'D' && !afterT {
+		if (unit == 'D') == afterT {
 			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
 		}
 		if sawDot && unit != 'S' {
 			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
 		}
+		if numStr := str[start : i-1]; numStr[0] == '.' || numStr[len(numStr)-1] == '.' {
+			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
+		}
 		lastUnit = unit
 		seenAny = true
 
@@ -295,7 +298,7 @@ func ParseDuration(str string) (time.Duration, error) {
 			}
 		}
 	}
-	if !seenAny {
+	if !seenAny || str[len(str)-1] == 'T' {
 		return 0, newParseDurationError("at least one number and designator are required")
 	}
 	return total, nil
-- 
2.43.0


From fdcbd563f13a2c636982104013ea9e04d8b44235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:55 +0000
Subject: [PATCH 06/41] fix: DateTime.ConvertToSeconds is correct outside the
 years 1678-2262

---
 mpd/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpd/io.go b/mpd/io.go
index 8295cd1..c99e587 100644
--- a/mpd/io.go
+++ b/mpd/io.go
@@ -145,5 +145,5 @@ func (dt DateTime) ConvertToSeconds() (float64, error) {
 	if err != nil {
 		return 0, err
 	}
-	return float64(t.UnixNano()) / 1_000_000_000, nil
+	return float64(t.Unix()) + float64(t.Nanosecond())/1_000_000_000, nil
 }
-- 
2.43.0


From 60619ff9efcfc75474b8ec29d813a3b3bb3202dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:55 +0000
Subject: [PATCH 07/41] fix: Switching@interval is an attribute

---
 mpd/mpd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 3d02e9a..b289346 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -756,7 +756,7 @@ type SubsetType struct {
 // SwitchingType is Switching
 type SwitchingType struct {
 	XMLName  xml.Name          `xml:"Switching"`
-	Interval uint32            `xml:"interval"`
+	Interval uint32            `xml:"interval,attr"`
 	Type     SwitchingTypeType `xml:"type,attr,omitempty"` // default = "media"
 }
 
-- 
2.43.0


From e0714387b8329cf67d982a5eaf28dc163465ca39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:55 +0000
Subject: [PATCH 08/41] fix: MPDs with GroupLabel elements can be read and
 written

---
 mpd/mpd.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index b289346..127118b 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -710,11 +710,11 @@ type ContentPopularityRateType struct {
 }
 
 // LabelType is Label and Group Label.
+// Note that XMLName is not set, since the same structure is used for both.
 type LabelType struct {
-	XMLName xml.Name `xml:"Label"`
-	Id      uint32   `xml:"id,attr,omitempty"` // default = 0
-	Lang    string   `xml:"lang,attr,omitempty"`
-	Value   string   `xml:",chardata"`
+	Id    uint32 `xml:"id,attr,omitempty"` // default = 0
+	Lang  string `xml:"lang,attr,omitempty"`
+	Value string `xml:",chardata"`
 }
 
 // ProducerReferenceTimeType is Producer Reference time.
-- 
2.43.0


From 818605853f2da9a6b4377832f5fc401c94588054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:55 +0000
Subject: [PATCH 09/41] fix: InitializationGroup, InitializationPresentation
 and QualityLatency can be read and written

---
 mpd/mpd.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 127118b..bbd1233 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -331,20 +331,20 @@ type PlaybackRestrictionsType struct {
 	SkipAfter Duration `xml:"skipAfter,attr,omitempty"`
 }
 
-// UIntPairsWithIDType is UInt Pairs With ID.
+// UIntPairsWithIDType is UInt Pairs With ID, used for QualityLatency.
+// Note that XMLName is not set, since the name is given by the parent.
 type UIntPairsWithIDType struct {
-	XMLName xml.Name `xml:"UIntPairsWithID"`
-	Type    AnyURI   `xml:"type,attr,omitempty"`
-	*UIntVectorType
+	Type            AnyURI `xml:"type,attr,omitempty"`
+	*UIntVectorType `xml:",chardata"`
 }
 
-// UIntVWithIDType is UInt Vector With ID
+// UIntVWithIDType is UInt Vector With ID, used for InitializationGroup and InitializationPresentation.
+// Note that XMLName is not set, since the name is given by the parent.
 type UIntVWithIDType struct {
-	XMLName     xml.Name               `xml:"UIntVWithID"`
-	Id          uint32                 `xml:"id,attr"`
-	Profiles    ListOfProfilesType     `xml:"profiles,attr,omitempty"`
-	ContentType RFC6838ContentTypeType `xml:"contentType,attr,omitempty"`
-	UIntVectorType
+	Id             uint32                 `xml:"id,attr"`
+	Profiles       ListOfProfilesType     `xml:"profiles,attr,omitempty"`
+	ContentType    RFC6838ContentTypeType `xml:"contentType,attr,omitempty"`
+	UIntVectorType `xml:",chardata"`
 }
 
 // AdaptationSetType is AdaptationSet or EmptyAdaptationSet.
-- 
2.43.0


From 47749346ddc3e87994282d595b9f1aa4bf7e88f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:55 +0000
Subject: [PATCH 10/41] fix: AdaptationSet and SegmentList xlink attributes
 keep the xlink namespace

---
 mpd/mpd.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index bbd1233..d2262c3 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -350,10 +350,10 @@ type UIntVWithIDType struct {
 // AdaptationSetType is AdaptationSet or EmptyAdaptationSet.
 // Note that XMLName is not set, since the same structure is used also for EmptyAdaptationSet.
 type AdaptationSetType struct {
-	XlinkHref               string                 `xml:"xlink:href,attr,omitempty"`
-	XlinkActuate            string                 `xml:"xlink:actuate,attr,omitempty"` // default is "onRequest"
-	XlinkType               string                 `xml:"xlink:type,attr,omitempty"`    // fixed "simple"
-	XlinkShow               string                 `xml:"xlink:show,attr,omitempty"`    // fixed "embed"
+	XlinkHref               string                 `xml:"http://www.w3.org/1999/xlink xlink:href,attr,omitempty"`
+	XlinkActuate            string                 `xml:"http://www.w3.org/1999/xlink xlink:actuate,attr,omitempty"` // default is "onRequest"
+	XlinkType               string                 `xml:"http://www.w3.org/1999/xlink xlink:type,attr,omitempty"`    // fixed "simple"
+	XlinkShow               string                 `xml:"http://www.w3.org/1999/xlink xlink:show,attr,omitempty"`    // fixed "embed"
 	Id                      *uint32                `xml:"id,attr"`
 	Group                   uint32                 `xml:"group,attr,omitempty"`
 	Lang                    string                 `xml:"lang,attr,omitempty"`
@@ -844,7 +844,7 @@ type SegmentListType struct {
 	XlinkHref    string            `xml:"http://www.w3.org/1999/xlink xlink:href,attr,omitempty"`
 	XlinkActuate string            `xml:"http://www.w3.org/1999/xlink xlink:actuate,attr,omitempty"` // default = "onRequest"
 	XlinkType    string            `xml:"http://www.w3.org/1999/xlink xlink:type,attr,omitempty"`    // fixed = "simple"
-	XlinkShow    string            `xml:"xlink:show,attr,omitempty"`                                 // fixed "embed"
+	XlinkShow    string            `xml:"http://www.w3.org/1999/xlink xlink:show,attr,omitempty"`    // fixed "embed"
 	SegmentURL   []*SegmentURLType `xml:"SegmentURL"`
 	MultipleSegmentBaseType
 }
-- 
2.43.0


From f925b563ba9a47a422d2e10fbdc2826e134ef570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:55 +0000
Subject: [PATCH 11/41] fix: CMCDParameters list attributes are written as one
 attribute and split on read

---
 mpd/mpd.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index d2262c3..901f3a3 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -995,6 +995,20 @@ type LeapSecondInformationType struct {
 // StringNoWhitespaceVectorType is Whitespace-separated list of no-whitespace strings
 type StringNoWhitespaceVectorType []string
 
+// MarshalXMLAttr renders the list as one whitespace-separated attribute value.
+func (s *StringNoWhitespaceVectorType) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
+	if s == nil || len(*s) == 0 {
+		return xml.Attr{}, nil
+	}
+	return xml.Attr{Name: name, Value: strings.Join(*s, " ")}, nil
+}
+
+// UnmarshalXMLAttr splits the attribute value into its list items.
+func (s *StringNoWhitespaceVectorType) UnmarshalXMLAttr(attr xml.Attr) error {
+	*s = strings.Fields(attr.Value)
+	return nil
+}
+
 // ContentSteeringType is Content Steering.
 type ContentSteeringType struct {
 	DefaultServiceLocation string `xml:"defaultServiceLocation,attr,omitempty"`
-- 
2.43.0


From bfebe476285299a33b3d17209867fc19d915cbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:55 +0000
Subject: [PATCH 12/41] fix: SetTimescale(1) leaves the timescale at its
 default

---
 mpd/mpd.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 901f3a3..3c6a7ff 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -804,6 +804,7 @@ func (s SegmentBaseType) GetTimescale() uint32 {
 func (s *SegmentBaseType) SetTimescale(timescale uint32) {
 	if timescale == 1 {
 		s.Timescale = nil
+		return
 	}
 	s.Timescale = &timescale
 }
-- 
2.43.0


From 8d96b238c09ec68f70abf656b4dc8924cd5bfe30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:55 +0000
Subject: [PATCH 13/41] fix: FloatInf64 renders negative infinity as -INF

---
 mpd/mpd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 3c6a7ff..ccf910f 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -1247,6 +1247,9 @@ func (f *FloatInf64) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
 	if fl == math.Inf(+1) {
 		return xml.Attr{Name: name, Value: "INF"}, nil
 	}
+	if fl == math.Inf(-1) {
+		return xml.Attr{Name: name, Value: "-INF"}, nil
+	}
 	val := strconv.FormatFloat(fl, 'f', -1, 64)
 	return xml.Attr{Name: name, Value: val}, nil
 }
-- 
2.43.0


From cee866398f4b1102ae6b4cd5b376339ffff229e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:55 +0000
Subject: [PATCH 14/41] fix: FloatInf64 attributes accept surrounding
 whitespace like other numbers

---
 mpd/mpd.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index ccf910f..17384ae 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -1255,11 +1255,12 @@ func (f *FloatInf64) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
 }
 
 func (f *FloatInf64) UnmarshalXMLAttr(attr xml.Attr) error {
-	if attr.Value == "INF" {
+	value := strings.TrimSpace(attr.Value)
+	if value == "INF" {
 		*f = FloatInf64(math.Inf(+1))
 		return nil
 	}
-	fl, err := strconv.ParseFloat(attr.Value, 64)
+	fl, err := strconv.ParseFloat(value, 64)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From e4b45cf660f6891e4a1d5d5ed363fb1927a81ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:55 +0000
Subject: [PATCH 15/41] fix: duration attributes accept surrounding whitespace

---
 mpd/duration.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpd/duration.go b/mpd/duration.go
index 7d015ce..b72443d 100644
--- a/mpd/duration.go
+++ b/mpd/duration.go
@@ -3,6 +3,7 @@ package mpd
 import (
 	"math"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/Eyevinn/dash-mpd/xml"
@@ -39,7 +40,7 @@ func (d *Duration) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
 }
 
 func (d *Duration) UnmarshalXMLAttr(attr xml.Attr) error {
-	dur, err := ParseDuration(attr.Value)
+	dur, err := ParseDuration(strings.TrimSpace(attr.Value))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 59504ab93aa8b5c1b3c0af3851228343d1eee578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:05 +0000
Subject: [PATCH 16/41] fix: Period.GetDuration works for a static MPD whose
 first Period has no start

---
 mpd/period.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpd/period.go b/mpd/period.go
index 6f09105..2d10637 100644
--- a/mpd/period.go
+++ b/mpd/period.go
@@ -155,10 +155,11 @@ func (p *Period) GetDuration() (Duration, error) {
 			}
 			end = *m.Periods[idx+1].Start
 		}
-		if p.Start == nil {
+		start, err := p.GetStart()
+		if err != nil {
 			return 0, ErrUnknownPeriodDur
 		}
-		return end - *p.Start, nil
+		return end - start, nil
 	default: // dynamic
 		if p.Start == nil {
 			// Early available period
-- 
2.43.0


From a266f4b84c16756ed78fbb60ea8abe81753ede4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:05 +0000
Subject: [PATCH 17/41] fix: Period.GetDuration uses the derived start of a
 dynamic Period

---
 mpd/period.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpd/period.go b/mpd/period.go
index 2d10637..0b481f0 100644
--- a/mpd/period.go
+++ b/mpd/period.go
@@ -161,7 +161,8 @@ func (p *Period) GetDuration() (Duration, error) {
 		}
 		return end - start, nil
 	default: // dynamic
-		if p.Start == nil {
+		start, err := p.GetStart()
+		if err != nil {
 			// Early available period
 			return 0, ErrUnknownPeriodDur
 		}
@@ -171,7 +172,7 @@ func (p *Period) GetDuration() (Duration, error) {
 		if m.Periods[idx+1].Start == nil {
 			return 0, ErrUnknownPeriodDur
 		}
-		return *m.Periods[idx+1].Start - *p.Start, nil
+		return *m.Periods[idx+1].Start - start, nil
 	}
 }
 
-- 
2.43.0


From 9c8f7389249b808838e2591d875c529f1881a2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:05 +0000
Subject: [PATCH 18/41] fix: SetParents also links EmptyAdaptationSets

---
 mpd/parents.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mpd/parents.go b/mpd/parents.go
index 6bbc61c..dff27ef 100644
--- a/mpd/parents.go
+++ b/mpd/parents.go
@@ -14,6 +14,10 @@ func (m *MPD) SetParents() {
 				}
 			}
 		}
+		for _, a := range p.EmptyAdaptationSets {
+			a.SetParent(p)
+			a.SetParents()
+		}
 	}
 }
 
@@ -34,6 +38,10 @@ func (p *Period) SetParents() {
 			}
 		}
 	}
+	for _, a := range p.EmptyAdaptationSets {
+		a.SetParent(p)
+		a.SetParents()
+	}
 }
 
 // AppendAdaptationSet appends an AdaptationSet to the Period and sets parent pointer.
-- 
2.43.0


From aff0d1dfdfe5d927a1656d47242a79a5745ccbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:05 +0000
Subject: [PATCH 19/41] fix: GetInit and GetMedia replace Bandwidth identifiers
 with a format tag

---
 mpd/mpd.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 17384ae..b55bef1 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -3,6 +3,7 @@ package mpd
 import (
 	"fmt"
 	"math"
+	"regexp"
 	"strconv"
 	"strings"
 
@@ -577,6 +578,7 @@ func (r *RepresentationType) GetInit() (string, error) {
 	initialization := st.Initialization
 	initialization = strings.ReplaceAll(initialization, "$RepresentationID$", r.Id)
 	initialization = strings.ReplaceAll(initialization, "$Bandwidth$", strconv.Itoa(int(r.Bandwidth)))
+	initialization = r.replaceFormattedBandwidth(initialization)
 	return initialization, nil
 }
 
@@ -595,10 +597,22 @@ func (r *RepresentationType) GetMedia() (string, error) {
 	media := st.Media
 	media = strings.ReplaceAll(media, "$RepresentationID$", r.Id)
 	media = strings.ReplaceAll(media, "$Bandwidth$", strconv.Itoa(int(r.Bandwidth)))
+	media = r.replaceFormattedBandwidth(media)
 
 	return media, nil
 }
 
+// formattedBandwidth is the $Bandwidth$ identifier with a format tag (ISO/IEC 23009-1 Section 5.3.9.4.4).
+var formattedBandwidth = regexp.MustCompile(`\$Bandwidth%0([0-9]{1,2})d\$`)
+
+// replaceFormattedBandwidth replaces $Bandwidth%0[width]d$ with the zero-padded bandwidth.
+func (r *RepresentationType) replaceFormattedBandwidth(template string) string {
+	return formattedBandwidth.ReplaceAllStringFunc(template, func(id string) string {
+		width, _ := strconv.Atoi(formattedBandwidth.FindStringSubmatch(id)[1])
+		return fmt.Sprintf("%0*d", width, r.Bandwidth)
+	})
+}
+
 // GetMimeType returns the representation's or its parent's mime type.
 func (r *RepresentationType) GetMimeType() string {
 	if r.MimeType == "" {
-- 
2.43.0


From 035d3ddca139a5bed8081ed59cb67ca6a5be4a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:05 +0000
Subject: [PATCH 20/41] fix: an MPD read with a prefix for the DASH namespace
 is written in that namespace

---
 mpd/io.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mpd/io.go b/mpd/io.go
index c99e587..acd659a 100644
--- a/mpd/io.go
+++ b/mpd/io.go
@@ -32,10 +32,19 @@ func ReadFromFile(path string) (*MPD, error) {
 	if err != nil {
 		return nil, err
 	}
+	mpd.setDefaultNamespace()
 	mpd.SetParents()
 	return &mpd, nil
 }
 
+// setDefaultNamespace keeps the namespace of an MPD which was read with a namespace prefix,
+// since it is always written without.
+func (m *MPD) setDefaultNamespace() {
+	if m.XMLName.Space != "" {
+		m.XMLNs = m.XMLName.Space
+	}
+}
+
 // ReadFromString reads and unmarshals an MPD from a string
 func ReadFromString(str string) (*MPD, error) {
 	return MPDFromBytes([]byte(str))
@@ -48,6 +57,7 @@ func MPDFromBytes(data []byte) (*MPD, error) {
 	if err != nil {
 		return nil, err
 	}
+	mpd.setDefaultNamespace()
 	mpd.SetParents()
 	return &mpd, nil
 }
-- 
2.43.0


From e2466fd6f8b558d06c8e1d4e37465f3b5e08502a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:06 +0000
Subject: [PATCH 21/41] fix: child elements of segment, Preselection and
 InitializationSet elements are written in schema order

---
 mpd/mpd.go | 52 ++++++++++++++++++++++++++--------------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index b55bef1..96d1778 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -257,23 +257,23 @@ type SelectionType struct {
 
 // InitializationSetType is Initialization Set.
 type InitializationSetType struct {
-	XMLName         xml.Name               `xml:"InitializationSet"`
-	XlinkHref       string                 `xml:"http://www.w3.org/1999/xlink xlink:href,attr,omitempty"`
-	XlinkActuate    string                 `xml:"http://www.w3.org/1999/xlink xlink:actuate,attr,omitempty"` // default = "onRequest"
-	XlinkType       string                 `xml:"http://www.w3.org/1999/xlink xlink:type,attr,omitempty"`    // fixed = "simple"
-	Id              uint32                 `xml:"id,attr"`
-	InAllPeriods    *bool                  `xml:"inAllPeriods,attr"` // default is true
-	ContentType     RFC6838ContentTypeType `xml:"contentType,attr,omitempty"`
-	Par             RatioType              `xml:"par,attr,omitempty"`
-	MaxWidth        uint32                 `xml:"maxWidth,attr,omitempty"`
-	MaxHeight       uint32                 `xml:"maxHeight,attr,omitempty"`
-	MaxFrameRate    string                 `xml:"maxFrameRate,attr,omitempty"`
-	Initialization  AnyURI                 `xml:"initialization,attr,omitempty"`
-	Accessibilities []*DescriptorType      `xml:"Accessibility"`
-	Roles           []*DescriptorType      `xml:"Role"`
-	Ratings         []*DescriptorType      `xml:"Rating"`
-	Viewpoints      []*DescriptorType      `xml:"Viewpoint"`
+	XMLName        xml.Name               `xml:"InitializationSet"`
+	XlinkHref      string                 `xml:"http://www.w3.org/1999/xlink xlink:href,attr,omitempty"`
+	XlinkActuate   string                 `xml:"http://www.w3.org/1999/xlink xlink:actuate,attr,omitempty"` // default = "onRequest"
+	XlinkType      string                 `xml:"http://www.w3.org/1999/xlink xlink:type,attr,omitempty"`    // fixed = "simple"
+	Id             uint32                 `xml:"id,attr"`
+	InAllPeriods   *bool                  `xml:"inAllPeriods,attr"` // default is true
+	ContentType    RFC6838ContentTypeType `xml:"contentType,attr,omitempty"`
+	Par            RatioType              `xml:"par,attr,omitempty"`
+	MaxWidth       uint32                 `xml:"maxWidth,attr,omitempty"`
+	MaxHeight      uint32                 `xml:"maxHeight,attr,omitempty"`
+	MaxFrameRate   string                 `xml:"maxFrameRate,attr,omitempty"`
+	Initialization AnyURI                 `xml:"initialization,attr,omitempty"`
 	RepresentationBaseType
+	Accessibilities []*DescriptorType `xml:"Accessibility"`
+	Roles           []*DescriptorType `xml:"Role"`
+	Ratings         []*DescriptorType `xml:"Rating"`
+	Viewpoints      []*DescriptorType `xml:"Viewpoint"`
 }
 
 // ServiceDescriptionType is Service Description.
@@ -750,11 +750,11 @@ type PreselectionType struct {
 	PreselectionComponents *StringVectorType     `xml:"preselectionComponents,attr"`
 	Lang                   string                `xml:"lang,attr,omitempty"`
 	Order                  PreselectionOrderType `xml:"order,attr,omitempty"`
-	Accessibilities        []*DescriptorType     `xml:"Accessibility"`
-	Roles                  []*DescriptorType     `xml:"Role"`
-	Ratings                []*DescriptorType     `xml:"Rating"`
-	Viewpoints             []*DescriptorType     `xml:"Viewpoint"`
 	RepresentationBaseType
+	Accessibilities []*DescriptorType `xml:"Accessibility"`
+	Roles           []*DescriptorType `xml:"Role"`
+	Ratings         []*DescriptorType `xml:"Rating"`
+	Viewpoints      []*DescriptorType `xml:"Viewpoint"`
 }
 
 // AudioSamplingRateType is UIntVectorType with 1 or 2 components.
@@ -831,9 +831,9 @@ type MultipleSegmentBaseType struct {
 	EndNumber          *uint32              `xml:"endNumber,attr,omitempty"`
 	EndSubNumber       *uint64              `xml:"endSubNumber,attr,omitempty"`
 	K                  *uint64              `xml:"k,attr,omitempty"` // Number of Segments per Sequence (Ed. 6)
+	SegmentBaseType                         // before the elements below, since its elements come first in the schema
 	SegmentTimeline    *SegmentTimelineType `xml:"SegmentTimeline"`
 	BitstreamSwitching *URLType             `xml:"BitstreamSwitching"`
-	SegmentBaseType
 }
 
 // URLType is Segment Info item URL/range.
@@ -856,12 +856,12 @@ type FailoverContentType struct {
 
 // SegmentListType is Segment List.
 type SegmentListType struct {
-	XlinkHref    string            `xml:"http://www.w3.org/1999/xlink xlink:href,attr,omitempty"`
-	XlinkActuate string            `xml:"http://www.w3.org/1999/xlink xlink:actuate,attr,omitempty"` // default = "onRequest"
-	XlinkType    string            `xml:"http://www.w3.org/1999/xlink xlink:type,attr,omitempty"`    // fixed = "simple"
-	XlinkShow    string            `xml:"http://www.w3.org/1999/xlink xlink:show,attr,omitempty"`    // fixed "embed"
-	SegmentURL   []*SegmentURLType `xml:"SegmentURL"`
+	XlinkHref    string `xml:"http://www.w3.org/1999/xlink xlink:href,attr,omitempty"`
+	XlinkActuate string `xml:"http://www.w3.org/1999/xlink xlink:actuate,attr,omitempty"` // default = "onRequest"
+	XlinkType    string `xml:"http://www.w3.org/1999/xlink xlink:type,attr,omitempty"`    // fixed = "simple"
+	XlinkShow    string `xml:"http://www.w3.org/1999/xlink xlink:show,attr,omitempty"`    // fixed "embed"
 	MultipleSegmentBaseType
+	SegmentURL []*SegmentURLType `xml:"SegmentURL"`
 }
 
 // SegmentURLType is Segment URL.
-- 
2.43.0


From f4f80f15b479cf5f44d952c3f173a6a339b9fa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:23 +0000
Subject: [PATCH 22/41] fix: EncodeElement keeps the attributes of the given
 start element

---
 xml/marshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index c8acede..7e97d2c 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -611,7 +611,7 @@ func (p *printer) marshalValue(val reflect.Value, finfo *fieldInfo, startTemplat
 
 	// Pre-size start.Attr to avoid repeated backing-array copies.
 	if cap(start.Attr) < tinfo.nAttrs {
-		start.Attr = make([]Attr, 0, tinfo.nAttrs)
+		start.Attr = append(make([]Attr, 0, len(start.Attr)+tinfo.nAttrs), start.Attr...)
 	}
 
 	// Attributes
-- 
2.43.0


From 86faa6ad7b51992147e1c50a8f2c47f3a2ede827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:43 +0000
Subject: [PATCH 23/41] fix: the xml encoder declares each namespace once and
 never under a shadowed prefix

---
 xml/marshal.go | 135 ++++++++++++++++++++++++++-----------------------
 1 file changed, 71 insertions(+), 64 deletions(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index 7e97d2c..adda589 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -371,6 +371,8 @@ type element struct {
 	name       string
 	nsToPrefix map[string]string
 	prefixToNS map[string]string
+	hasDefault bool   // set if the element declares a default namespace
+	defaultNS  string // the default namespace that it declares
 }
 
 func newElement(name Name) element {
@@ -380,6 +382,19 @@ func newElement(name Name) element {
 	return e
 }
 
+// usePrefix records that the element uses or declares prefix for the namespace URI,
+// so that it is not given another meaning on the same element.
+func (e *element) usePrefix(prefix, uri string) {
+	if e.nsToPrefix == nil {
+		e.nsToPrefix = make(map[string]string)
+		e.prefixToNS = make(map[string]string)
+	}
+	if e.nsToPrefix[uri] == "" {
+		e.nsToPrefix[uri] = prefix
+	}
+	e.prefixToNS[prefix] = uri
+}
+
 func splitPrefixed(prefixed string) (prefix, name string) {
 	i := strings.Index(prefixed, ":")
 	if i < 1 || i > len(prefixed)-2 {
@@ -426,7 +441,7 @@ func (p *printer) getPrefix(uri string) string {
 		if prefix != "" {
 			// Look for prefix collision deeper in the tree
 			for i++; i < len(p.elements); i++ {
-				if p.elements[i].prefixToNS[prefix] != "" {
+				if ns := p.elements[i].prefixToNS[prefix]; ns != "" && ns != uri {
 					return ""
 				}
 			}
@@ -436,24 +451,40 @@ func (p *printer) getPrefix(uri string) string {
 	return ""
 }
 
+// getDefault finds the default namespace URI in scope, if it is that of the element declaring it.
+func (p *printer) getDefault() string {
+	for i := len(p.elements) - 1; i >= 0; i-- {
+		if e := &p.elements[i]; e.hasDefault {
+			if e.xmlns != e.defaultNS {
+				return ""
+			}
+			return e.defaultNS
+		}
+	}
+	return ""
+}
+
 // createPrefix finds a prefix to use for the given namespace URI,
 // defining a new prefix if necessary. It returns the prefix.
 // If set, it will attempt to use preferred as the prefix.
 func (p *printer) createPrefix(uri, preferred string) (string, bool) {
-	if prefix := p.getPrefix(uri); prefix != "" && (prefix == preferred || preferred == "") {
-		return prefix, false
+	if uri == xmlURL {
+		// No other prefix may be bound to this namespace.
+		return xmlPrefix, false
 	}
-
 	if len(p.elements) == 0 {
 		return "", false
 	}
-
-	// Need to define a new namespace prefix
 	e := &p.elements[len(p.elements)-1]
-	if e.nsToPrefix == nil {
-		e.nsToPrefix = make(map[string]string)
-		e.prefixToNS = make(map[string]string)
+	if preferred != "" && e.prefixToNS[preferred] == uri {
+		return preferred, false
 	}
+	if prefix := p.getPrefix(uri); prefix != "" && (prefix == preferred || preferred == "") {
+		e.usePrefix(prefix, uri)
+		return prefix, false
+	}
+
+	// Need to define a new namespace prefix
 
 	// Pick a name. Try to use the final element of the path but fall back to _.
 	prefix := preferred
@@ -483,10 +514,7 @@ func (p *printer) createPrefix(uri, preferred string) (string, bool) {
 		}
 	}
 
-	if e.nsToPrefix[uri] == "" {
-		e.nsToPrefix[uri] = prefix
-	}
-	e.prefixToNS[prefix] = uri
+	e.usePrefix(prefix, uri)
 
 	return prefix, true
 }
@@ -820,67 +848,47 @@ func (p *printer) writeStart(start *StartElement) error {
 	p.elements = append(p.elements, newElement(start.Name))
 	e := &p.elements[len(p.elements)-1]
 
+	// Namespaces declared by attributes apply to the whole tag.
+	for _, attr := range start.Attr {
+		switch {
+		case attr.Name.Space == "" && attr.Name.Local == xmlnsPrefix:
+			e.hasDefault, e.defaultNS = true, attr.Value
+		case attr.Name.Space == xmlnsURL && attr.Name.Local != "":
+			e.usePrefix(attr.Name.Local, attr.Value)
+		}
+	}
+
 	// Set the namespace prefix, if necessary
-	var spaceDefined bool
+	var prefixCreated, defaultCreated bool
 	if e.xmlns != "" {
-		// Try to avoid needing a prefix first.
-		for _, attr := range start.Attr {
-			if attr.Name.Space == "" && attr.Name.Local == xmlnsPrefix && attr.Value == e.xmlns {
-				spaceDefined = true
-				break
-			}
-		}
-		// Walk up the tree to see if a default namespace is already defined without a prefix.
-		if !spaceDefined && e.prefix == "" {
-			for i := len(p.elements) - 2; i >= 0; i-- {
-				if p.elements[i].prefix == "" && p.elements[i].xmlns == e.xmlns {
-					spaceDefined = true
-					break
-				}
-			}
-		}
-		// Locate an eventual prefix. If none, the XML is <tag name and no short notation is used
-		if !spaceDefined && e.prefix == "" {
-			// Look for an xmlns:prefix="uri" attribute that matches tag
-			for _, attr := range start.Attr {
-				if attr.Name.Space == xmlnsURL && attr.Name.Local != "" && attr.Value == e.xmlns {
-					e.prefix, _ = p.createPrefix(attr.Value, attr.Name.Local)
-					spaceDefined = true
-					break
-				}
-			}
-		}
-		if !spaceDefined && e.prefix == "" {
-			e.prefix = p.getPrefix(e.xmlns)
-			if e.prefix != "" {
-				spaceDefined = true
+		if e.prefix == "" && p.getDefault() != e.xmlns {
+			// Try to use a known prefix, otherwise make it the default namespace.
+			// If the tag itself declares another one, a new prefix is needed.
+			if prefix := p.getPrefix(e.xmlns); prefix != "" || e.hasDefault {
+				e.prefix, prefixCreated = p.createPrefix(e.xmlns, prefix)
+			} else {
+				e.hasDefault, e.defaultNS = true, e.xmlns
+				defaultCreated = true
 			}
+		} else if e.prefix != "" {
+			e.prefix, prefixCreated = p.createPrefix(e.xmlns, e.prefix)
 		}
 	}
 
 	p.writeIndent(1) // handling relative depth of a tag
 	p.WriteByte('<')
 	if e.prefix != "" {
-		var prefixCreated bool
-		if e.xmlns != "" && !spaceDefined {
-			e.prefix, prefixCreated = p.createPrefix(e.xmlns, e.prefix)
-		}
 		p.WriteString(e.prefix)
 		p.WriteByte(':')
-		p.WriteString(e.name)
-		if prefixCreated {
-			p.WriteByte(' ')
-			p.writePrefixAttr(e.prefix, e.xmlns)
-		}
-	} else if e.xmlns != "" {
-		p.WriteString(e.name)
-		if !spaceDefined {
-			p.WriteString(` xmlns="`)
-			p.EscapeString(e.xmlns)
-			p.WriteByte('"')
-		}
-	} else {
-		p.WriteString(e.name)
+	}
+	p.WriteString(e.name)
+	if prefixCreated {
+		p.WriteByte(' ')
+		p.writePrefixAttr(e.prefix, e.xmlns)
+	} else if defaultCreated {
+		p.WriteString(` xmlns="`)
+		p.EscapeString(e.xmlns)
+		p.WriteByte('"')
 	}
 
 	// Attributes
@@ -891,7 +899,6 @@ func (p *printer) writeStart(start *StartElement) error {
 		prefix, local := splitPrefixed(attr.Name.Local)
 		p.WriteByte(' ')
 		if attr.Name.Space == xmlnsURL {
-			p.createPrefix(attr.Value, local)
 			p.WriteString(xmlnsPrefix)
 			p.WriteByte(':')
 		} else if attr.Name.Space != "" {
-- 
2.43.0


From 6c6c2fc419fb537994fe0d4a12f7bad4cb5e773e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:26 +0000
Subject: [PATCH 24/41] fix: GetInit and GetMedia keep $$ escapes and do not
 replace identifiers in the representation id

---
 mpd/mpd.go | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 96d1778..6a69cbd 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -575,11 +575,7 @@ func (r *RepresentationType) GetInit() (string, error) {
 	if st == nil {
 		return "", ErrSegmentTemplateNotSet
 	}
-	initialization := st.Initialization
-	initialization = strings.ReplaceAll(initialization, "$RepresentationID$", r.Id)
-	initialization = strings.ReplaceAll(initialization, "$Bandwidth$", strconv.Itoa(int(r.Bandwidth)))
-	initialization = r.replaceFormattedBandwidth(initialization)
-	return initialization, nil
+	return r.replaceIdentifiers(st.Initialization), nil
 }
 
 // GetRepMedia returns the representation's media path with replaced ID and bandwidth identifiers.
@@ -594,22 +590,31 @@ func (r *RepresentationType) GetMedia() (string, error) {
 	if st == nil {
 		return "", ErrSegmentTemplateNotSet
 	}
-	media := st.Media
-	media = strings.ReplaceAll(media, "$RepresentationID$", r.Id)
-	media = strings.ReplaceAll(media, "$Bandwidth$", strconv.Itoa(int(r.Bandwidth)))
-	media = r.replaceFormattedBandwidth(media)
-
-	return media, nil
+	return r.replaceIdentifiers(st.Media), nil
 }
 
-// formattedBandwidth is the $Bandwidth$ identifier with a format tag (ISO/IEC 23009-1 Section 5.3.9.4.4).
-var formattedBandwidth = regexp.MustCompile(`\$Bandwidth%0([0-9]{1,2})d\$`)
+var (
+	// templateIdentifier is an identifier, or $$, in a template (ISO/IEC 23009-1 Section 5.3.9.4.4).
+	templateIdentifier = regexp.MustCompile(`\$[^$]*\$`)
+	// formattedBandwidth is the Bandwidth identifier with a format tag.
+	formattedBandwidth = regexp.MustCompile(`^\$Bandwidth%0([0-9]{1,2})d\$$`)
+)
 
-// replaceFormattedBandwidth replaces $Bandwidth%0[width]d$ with the zero-padded bandwidth.
-func (r *RepresentationType) replaceFormattedBandwidth(template string) string {
-	return formattedBandwidth.ReplaceAllStringFunc(template, func(id string) string {
-		width, _ := strconv.Atoi(formattedBandwidth.FindStringSubmatch(id)[1])
-		return fmt.Sprintf("%0*d", width, r.Bandwidth)
+// replaceIdentifiers replaces $RepresentationID$ and $Bandwidth$ (possibly with a format tag) in template.
+// Other identifiers, and the escape sequence $$, are kept.
+func (r *RepresentationType) replaceIdentifiers(template string) string {
+	return templateIdentifier.ReplaceAllStringFunc(template, func(id string) string {
+		switch id {
+		case "$RepresentationID$":
+			return r.Id
+		case "$Bandwidth$":
+			return strconv.Itoa(int(r.Bandwidth))
+		}
+		if tag := formattedBandwidth.FindStringSubmatch(id); tag != nil {
+			width, _ := strconv.Atoi(tag[1])
+			return fmt.Sprintf("%0*d", width, r.Bandwidth)
+		}
+		return id
 	})
 }
 
-- 
2.43.0


From 5b497fab17177316e0c1ab633ba756d02ae72efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:04 +0000
Subject: [PATCH 25/41] fix: PrivateBytes in a prefixed SCTE-35 element is
 written in the namespace of its parent

---
 xml/marshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xml/marshal.go b/xml/marshal.go
index adda589..b113f00 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -624,6 +624,10 @@ func (p *printer) marshalValue(val reflect.Value, finfo *fieldInfo, startTemplat
 	}
 	if start.Name.Local == "" && finfo != nil { // XMLName overrides tag name - anonymous struct
 		start.Name.Space, start.Name.Local = finfo.xmlns, joinPrefixed(finfo.prefix, finfo.name)
+		// The outer tag namespace remains valid, also if it is not the default namespace.
+		if n := len(p.elements); tinfo.xmlname == nil && finfo.xmlns == "" && finfo.prefix == "" && n > 0 && p.elements[n-1].prefix != "" {
+			start.Name.Space = p.elements[n-1].xmlns
+		}
 	}
 	if start.Name.Local == "" { // No or empty XMLName and still no tag name
 		name := typ.Name()
-- 
2.43.0


From 7c480a06d467015fb1f133a56862c1cbeb1f5b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:13 +0000
Subject: [PATCH 26/41] fix: infinite float values are written as INF

---
 xml/marshal.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index b113f00..34c8fe4 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -11,6 +11,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -966,7 +967,7 @@ func (p *printer) marshalSimple(typ reflect.Type, val reflect.Value) (string, []
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
 		return strconv.FormatUint(val.Uint(), 10), nil, nil
 	case reflect.Float32, reflect.Float64:
-		return strconv.FormatFloat(val.Float(), 'g', -1, val.Type().Bits()), nil, nil
+		return string(appendFloat(nil, val)), nil, nil
 	case reflect.String:
 		return val.String(), nil, nil
 	case reflect.Bool:
@@ -994,6 +995,18 @@ func (p *printer) marshalSimple(typ reflect.Type, val reflect.Value) (string, []
 	return "", nil, &UnsupportedTypeError{typ}
 }
 
+// appendFloat appends the XML Schema form of val, where infinity is INF.
+func appendFloat(dst []byte, val reflect.Value) []byte {
+	f := val.Float()
+	switch {
+	case math.IsInf(f, +1):
+		return append(dst, "INF"...)
+	case math.IsInf(f, -1):
+		return append(dst, "-INF"...)
+	}
+	return strconv.AppendFloat(dst, f, 'g', -1, val.Type().Bits())
+}
+
 var ddBytes = []byte("--")
 
 // indirect drills into interfaces and pointers, returning the pointed-at value.
@@ -1069,7 +1082,7 @@ func (p *printer) marshalStruct(tinfo *typeInfo, val reflect.Value) error {
 					return err
 				}
 			case reflect.Float32, reflect.Float64:
-				if err := emit(p, strconv.AppendFloat(scratch[:0], vf.Float(), 'g', -1, vf.Type().Bits())); err != nil {
+				if err := emit(p, appendFloat(scratch[:0], vf)); err != nil {
 					return err
 				}
 			case reflect.Bool:
-- 
2.43.0


From 7a934afe2d697f8415e1fbbede2cf05c83e59497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:30 +0000
Subject: [PATCH 27/41] fix: writing an element whose embedded type is absent
 no longer panics

---
 xml/marshal.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index 34c8fe4..d274520 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -656,7 +656,11 @@ func (p *printer) marshalValue(val reflect.Value, finfo *fieldInfo, startTemplat
 
 		fv := finfo.value(val, dontInitNilPointers)
 
-		if finfo.flags&fOmitEmpty != 0 && (!fv.IsValid() || isEmptyValue(fv)) {
+		if !fv.IsValid() { // inside a nil embedded struct pointer
+			continue
+		}
+
+		if finfo.flags&fOmitEmpty != 0 && isEmptyValue(fv) {
 			continue
 		}
 
-- 
2.43.0


From 016586a534eb3f9e976bfdaebca0c28158d61baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:43 +0000
Subject: [PATCH 28/41] fix: a non-strict decoder no longer swallows the
 character after an attribute without a value

---
 xml/xml.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/xml/xml.go b/xml/xml.go
index 1d65454..41d9cda 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -834,9 +834,6 @@ func (d *Decoder) rawToken() (Token, error) {
 	for {
 		d.space()
 		if b, ok = d.mustgetc(); !ok {
-			if len(attr) > 0 && !d.Strict {
-				break // When not strict, an attribute might end with EOF
-			}
 			return nil, d.err
 		}
 		if b == '/' {
@@ -871,6 +868,7 @@ func (d *Decoder) rawToken() (Token, error) {
 				d.err = d.syntaxError("attribute name without = in element")
 				return nil, d.err
 			}
+			d.ungetc(b)
 			a.Value = a.Name.Local
 		} else {
 			d.space()
-- 
2.43.0


From cfa6ee01358c6e25be9202d4474c806ca3f54cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:03 +0000
Subject: [PATCH 29/41] fix: text marshalers, path elements and types with
 XMLName keep the namespace of a prefixed outer tag

---
 xml/marshal.go | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index d274520..d4db83d 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -564,23 +564,23 @@ func (p *printer) marshalValue(val reflect.Value, finfo *fieldInfo, startTemplat
 	// Check for marshaler.
 	ti := getTypeImpl(typ)
 	if val.CanInterface() && ti.marshaler {
-		return p.marshalInterface(val.Interface().(Marshaler), defaultStart(typ, finfo, startTemplate))
+		return p.marshalInterface(val.Interface().(Marshaler), p.defaultStart(typ, finfo, startTemplate))
 	}
 	if val.CanAddr() {
 		pv := val.Addr()
 		if pv.CanInterface() && ti.addrMarshaler {
-			return p.marshalInterface(pv.Interface().(Marshaler), defaultStart(pv.Type(), finfo, startTemplate))
+			return p.marshalInterface(pv.Interface().(Marshaler), p.defaultStart(pv.Type(), finfo, startTemplate))
 		}
 	}
 
 	// Check for text marshaler.
 	if val.CanInterface() && ti.textMarshaler {
-		return p.marshalTextInterface(val.Interface().(encoding.TextMarshaler), defaultStart(typ, finfo, startTemplate))
+		return p.marshalTextInterface(val.Interface().(encoding.TextMarshaler), p.defaultStart(typ, finfo, startTemplate))
 	}
 	if val.CanAddr() {
 		pv := val.Addr()
 		if pv.CanInterface() && ti.addrTextMarshaler {
-			return p.marshalTextInterface(pv.Interface().(encoding.TextMarshaler), defaultStart(pv.Type(), finfo, startTemplate))
+			return p.marshalTextInterface(pv.Interface().(encoding.TextMarshaler), p.defaultStart(pv.Type(), finfo, startTemplate))
 		}
 	}
 
@@ -625,10 +625,6 @@ func (p *printer) marshalValue(val reflect.Value, finfo *fieldInfo, startTemplat
 	}
 	if start.Name.Local == "" && finfo != nil { // XMLName overrides tag name - anonymous struct
 		start.Name.Space, start.Name.Local = finfo.xmlns, joinPrefixed(finfo.prefix, finfo.name)
-		// The outer tag namespace remains valid, also if it is not the default namespace.
-		if n := len(p.elements); tinfo.xmlname == nil && finfo.xmlns == "" && finfo.prefix == "" && n > 0 && p.elements[n-1].prefix != "" {
-			start.Name.Space = p.elements[n-1].xmlns
-		}
 	}
 	if start.Name.Local == "" { // No or empty XMLName and still no tag name
 		name := typ.Name()
@@ -641,6 +637,9 @@ func (p *printer) marshalValue(val reflect.Value, finfo *fieldInfo, startTemplat
 		}
 		start.Name.Local = name
 	}
+	if startTemplate == nil && (tinfo.xmlname == nil || tinfo.xmlname.name != "") {
+		p.inheritSpace(&start.Name)
+	}
 
 	// Pre-size start.Attr to avoid repeated backing-array copies.
 	if cap(start.Attr) < tinfo.nAttrs {
@@ -794,7 +793,7 @@ func (p *printer) marshalAttr(start *StartElement, name Name, val reflect.Value)
 
 // defaultStart returns the default start element to use,
 // given the reflect type, field info, and start template.
-func defaultStart(typ reflect.Type, finfo *fieldInfo, startTemplate *StartElement) StartElement {
+func (p *printer) defaultStart(typ reflect.Type, finfo *fieldInfo, startTemplate *StartElement) StartElement {
 	var start StartElement
 	// Precedence for the XML element name is as above,
 	// except that we do not look inside structs for the first field.
@@ -811,9 +810,24 @@ func defaultStart(typ reflect.Type, finfo *fieldInfo, startTemplate *StartElemen
 		// since it has the Marshaler methods.
 		start.Name.Local = typ.Elem().Name()
 	}
+	if startTemplate == nil {
+		p.inheritSpace(&start.Name)
+	}
 	return start
 }
 
+// inheritSpace gives a name without a namespace that of the outer tag, which
+// remains valid also if the outer tag has a prefix.
+func (p *printer) inheritSpace(name *Name) {
+	n := len(p.elements)
+	if name.Space != "" || n == 0 || p.elements[n-1].prefix == "" {
+		return
+	}
+	if prefix, _ := splitPrefixed(name.Local); prefix == "" {
+		name.Space = p.elements[n-1].xmlns
+	}
+}
+
 // marshalInterface marshals a Marshaler interface value.
 func (p *printer) marshalInterface(val Marshaler, start StartElement) error {
 	// Push a marker onto the element stack so that MarshalXML
@@ -1272,6 +1286,7 @@ func (p *printer) writeIndent(depthDelta int) {
 type parentStack struct {
 	p     *printer
 	stack []string
+	names []Name // of the elements in stack, as written
 }
 
 // trim updates the XML context to match the longest common prefix of the stack
@@ -1285,20 +1300,23 @@ func (s *parentStack) trim(parents []string) error {
 		}
 	}
 	for i := len(s.stack) - 1; i >= split; i-- {
-		if err := s.p.writeEnd(Name{Local: s.stack[i]}); err != nil {
+		if err := s.p.writeEnd(s.names[i]); err != nil {
 			return err
 		}
 	}
-	s.stack = s.stack[:split]
+	s.stack, s.names = s.stack[:split], s.names[:split]
 	return nil
 }
 
 // push adds parent elements to the stack and writes open tags.
 func (s *parentStack) push(parents []string) error {
 	for i := range parents {
-		if err := s.p.writeStart(&StartElement{Name: Name{Local: parents[i]}}); err != nil {
+		name := Name{Local: parents[i]}
+		s.p.inheritSpace(&name)
+		if err := s.p.writeStart(&StartElement{Name: name}); err != nil {
 			return err
 		}
+		s.names = append(s.names, name)
 	}
 	s.stack = append(s.stack, parents...)
 	return nil
-- 
2.43.0


From 5aba0355c6f22a2bd227a9ee35005fd7d6a9aa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:45 +0000
Subject: [PATCH 30/41] fix: the encoder finds a usable prefix when another
 prefix for the same namespace is shadowed

---
 xml/marshal.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index d4db83d..5c86979 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -438,20 +438,33 @@ func (p *printer) getPrefix(uri string) string {
 		return xmlnsPrefix
 	}
 	for i := len(p.elements) - 1; i >= 0; i-- {
-		prefix := p.elements[i].nsToPrefix[uri]
-		if prefix != "" {
-			// Look for prefix collision deeper in the tree
-			for i++; i < len(p.elements); i++ {
-				if ns := p.elements[i].prefixToNS[prefix]; ns != "" && ns != uri {
-					return ""
-				}
-			}
+		e := &p.elements[i]
+		if prefix := e.nsToPrefix[uri]; prefix != "" && !p.shadowed(prefix, uri, i) {
 			return prefix
 		}
+		found := ""
+		for prefix, ns := range e.prefixToNS {
+			if ns == uri && (found == "" || prefix < found) && !p.shadowed(prefix, uri, i) {
+				found = prefix
+			}
+		}
+		if found != "" {
+			return found
+		}
 	}
 	return ""
 }
 
+// shadowed reports whether prefix, of element i, has another meaning deeper in the tree.
+func (p *printer) shadowed(prefix, uri string, i int) bool {
+	for i++; i < len(p.elements); i++ {
+		if ns := p.elements[i].prefixToNS[prefix]; ns != "" && ns != uri {
+			return true
+		}
+	}
+	return false
+}
+
 // getDefault finds the default namespace URI in scope, if it is that of the element declaring it.
 func (p *printer) getDefault() string {
 	for i := len(p.elements) - 1; i >= 0; i-- {
-- 
2.43.0


From 57f32a972c3d170eb362249f472ca0dc90543468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:24 +0000
Subject: [PATCH 31/41] fix: the encoder accepts the end tag of an element
 whose preferred prefix was taken

---
 xml/marshal.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index 5c86979..65b031a 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -369,6 +369,7 @@ func (enc *Encoder) Close() error {
 type element struct {
 	xmlns      string
 	prefix     string
+	given      string // the prefix asked for, which may have another meaning
 	name       string
 	nsToPrefix map[string]string
 	prefixToNS map[string]string
@@ -380,6 +381,7 @@ func newElement(name Name) element {
 	var e element
 	e.xmlns = name.Space
 	e.prefix, e.name = splitPrefixed(name.Local)
+	e.given = e.prefix
 	return e
 }
 
@@ -966,7 +968,7 @@ func (p *printer) writeEnd(name Name) error {
 	e := p.elements[len(p.elements)-1]
 	prefix, local := splitPrefixed(name.Local)
 	// Tag prefixes do not match
-	if prefix != "" && e.prefix != "" && prefix != e.prefix {
+	if prefix != "" && e.prefix != "" && prefix != e.prefix && prefix != e.given {
 		return fmt.Errorf("xml: end prefix </%s:%s> does not match start prefix <%s:%s>", prefix, local, e.prefix, e.name)
 	}
 	// Tag names do not match
-- 
2.43.0


From 56e21037e8c04a34489a78ece4b7af9e2aa6826a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:06 +0000
Subject: [PATCH 32/41] fix: SetSegmentBase gives the right index range when it
 ends beyond 4 GiB

---
 mpd/mpd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 6a69cbd..b647a8a 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -471,7 +471,7 @@ func (r *RepresentationType) Parent() *AdaptationSetType {
 // SetSegmentBase sets SegmentBaseType for RepresentationType.
 func (r *RepresentationType) SetSegmentBase(initSize, sidxSize uint32, indexRangeExact bool) {
 	initRange := fmt.Sprintf("0-%d", initSize-1)
-	indexRange := fmt.Sprintf("%d-%d", initSize, initSize+sidxSize-1)
+	indexRange := fmt.Sprintf("%d-%d", initSize, uint64(initSize)+uint64(sidxSize)-1)
 	r.SegmentBase = &SegmentBaseType{
 		IndexRange: indexRange,
 		Initialization: &URLType{
-- 
2.43.0


From 78716db79fb809875e5f794b0c28e65d066bf501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:46 +0000
Subject: [PATCH 33/41] fix: do not panic in getters of a Representation
 without parent

---
 mpd/mpd.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index b647a8a..26a6f21 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -557,7 +557,7 @@ type RepresentationBaseType struct {
 }
 
 func (r *RepresentationType) GetSegmentTemplate() *SegmentTemplateType {
-	if r.SegmentTemplate == nil {
+	if r.SegmentTemplate == nil && r.parent != nil {
 		return r.parent.GetSegmentTemplate()
 	}
 	return r.SegmentTemplate
@@ -620,7 +620,7 @@ func (r *RepresentationType) replaceIdentifiers(template string) string {
 
 // GetMimeType returns the representation's or its parent's mime type.
 func (r *RepresentationType) GetMimeType() string {
-	if r.MimeType == "" {
+	if r.MimeType == "" && r.parent != nil {
 		return r.parent.GetMimeType()
 	}
 	return r.MimeType
@@ -628,7 +628,7 @@ func (r *RepresentationType) GetMimeType() string {
 
 // GetCodecs returns the representation's or its parent's codecs string.
 func (r *RepresentationType) GetCodecs() string {
-	if r.Codecs == "" {
+	if r.Codecs == "" && r.parent != nil {
 		return r.parent.GetCodecs()
 	}
 	return r.Codecs
@@ -636,7 +636,7 @@ func (r *RepresentationType) GetCodecs() string {
 
 // GetContentProtections returns the representation's or its parent's content protections.
 func (r *RepresentationType) GetContentProtections() []*ContentProtectionType {
-	if len(r.ContentProtections) == 0 {
+	if len(r.ContentProtections) == 0 && r.parent != nil {
 		return r.parent.GetContentProtections()
 	}
 	return r.ContentProtections
-- 
2.43.0


From 0de9a2587066d56f8fe1326fb47bda1b7ce2cc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:00 +0000
Subject: [PATCH 34/41] fix: derive the start of a Period without recursion and
 quadratic cost

---
 mpd/period.go | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/mpd/period.go b/mpd/period.go
index 0b481f0..5c4cded 100644
--- a/mpd/period.go
+++ b/mpd/period.go
@@ -111,22 +111,33 @@ func (p *Period) GetStart() (Duration, error) {
 	if err != nil {
 		return 0, err
 	}
-	if idx > 0 {
-		prev := m.Periods[idx-1]
-		if prev.Duration != nil {
-			prevStart, err := prev.GetStart()
-			if err != nil {
-				return 0, fmt.Errorf("cannot get start of previous period: %w", err)
-			}
-			return prevStart + *prev.Duration, nil
+	// Add up the durations of the preceding periods, back to the last one with a start.
+	// This is a loop, and not a recursion, since there may be very many periods.
+	var durations Duration
+	for i := idx; i > 0; i-- {
+		prev := m.Periods[i-1]
+		if prev.Duration == nil {
+			return 0, unknownStart(idx - i)
+		}
+		durations += *prev.Duration
+		if prev.Start != nil {
+			return *prev.Start + durations, nil
 		}
-		return 0, ErrUnknownPeriodStart
 	}
 	// first period of static, but no start => start = 0
 	if m.GetType() == STATIC_TYPE {
-		return 0, nil
+		return durations, nil
+	}
+	return 0, unknownStart(idx)
+}
+
+// unknownStart is the error of GetStart if the start of the period that is
+// back periods before is needed, but cannot be derived.
+func unknownStart(back int) error {
+	if back == 0 {
+		return ErrUnknownPeriodStart
 	}
-	return 0, ErrUnknownPeriodStart
+	return fmt.Errorf("cannot get start of previous period: %w", ErrUnknownPeriodStart)
 }
 
 // GetDuration returns the period's duration if specified or the MPD is single-period static.
-- 
2.43.0


From 8823e6b57a2a039b452182e66cfebcdc005fff2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:43 +0000
Subject: [PATCH 35/41] fix: refuse an XML declaration after a flush, when it
 is not the first token

---
 xml/marshal.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index 65b031a..36ff203 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -174,6 +174,7 @@ func AcquireEncoder(w io.Writer) *Encoder {
 	enc := encoderPool.Get().(*Encoder)
 	enc.p.w.Reset(w)
 	enc.p.closed = false
+	enc.p.started = false
 	enc.p.err = nil
 	return enc
 }
@@ -192,6 +193,7 @@ func ReleaseEncoder(enc *Encoder) {
 	enc.p.indentedIn = false
 	enc.p.putNewline = false
 	enc.p.closed = false
+	enc.p.started = false
 	enc.p.err = nil
 	// Truncate the elements slice without releasing its backing array.
 	enc.p.elements = enc.p.elements[:0]
@@ -278,7 +280,7 @@ func (enc *Encoder) EncodeToken(t Token) error {
 	case ProcInst:
 		// First token to be encoded which is also a ProcInst with target of xml
 		// is the xml declaration. The only ProcInst where target of xml is allowed.
-		if t.Target == "xml" && p.w.Buffered() != 0 {
+		if t.Target == "xml" && p.started {
 			return fmt.Errorf("xml: EncodeToken of ProcInst xml target only valid for xml declaration, first token encoded")
 		}
 		if !isNameString(t.Target) {
@@ -424,6 +426,7 @@ type printer struct {
 	putNewline bool
 	elements   []element
 	closed     bool
+	started    bool // set once anything has been written
 	err        error
 }
 
@@ -1217,6 +1220,7 @@ func (p *printer) Write(b []byte) (n int, err error) {
 		p.err = errors.New("use of closed Encoder")
 	}
 	if p.err == nil {
+		p.started = p.started || len(b) > 0
 		n, p.err = p.w.Write(b)
 	}
 	return n, p.err
@@ -1228,6 +1232,7 @@ func (p *printer) WriteString(s string) (n int, err error) {
 		p.err = errors.New("use of closed Encoder")
 	}
 	if p.err == nil {
+		p.started = p.started || len(s) > 0
 		n, p.err = p.w.WriteString(s)
 	}
 	return n, p.err
@@ -1239,6 +1244,7 @@ func (p *printer) WriteByte(c byte) error {
 		p.err = errors.New("use of closed Encoder")
 	}
 	if p.err == nil {
+		p.started = true
 		p.err = p.w.WriteByte(c)
 	}
 	return p.err
-- 
2.43.0


From 5fab25680a6d5db822e41039b652f807af88b488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:01 +0000
Subject: [PATCH 36/41] fix: derive the duration of a static Period from the
 next one's start without mediaPresentationDuration

---
 mpd/period.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/mpd/period.go b/mpd/period.go
index 5c4cded..28a6778 100644
--- a/mpd/period.go
+++ b/mpd/period.go
@@ -156,21 +156,19 @@ func (p *Period) GetDuration() (Duration, error) {
 	}
 	switch m.GetType() {
 	case STATIC_TYPE:
-		if m.MediaPresentationDuration == nil {
-			return 0, ErrNoMediaPresentationDuration
-		}
-		end := *m.MediaPresentationDuration
+		end := m.MediaPresentationDuration
 		if idx < nrPeriods-1 {
-			if m.Periods[idx+1].Start == nil {
+			if end = m.Periods[idx+1].Start; end == nil {
 				return 0, ErrUnknownPeriodDur
 			}
-			end = *m.Periods[idx+1].Start
+		} else if end == nil {
+			return 0, ErrNoMediaPresentationDuration
 		}
 		start, err := p.GetStart()
 		if err != nil {
 			return 0, ErrUnknownPeriodDur
 		}
-		return end - start, nil
+		return *end - start, nil
 	default: // dynamic
 		start, err := p.GetStart()
 		if err != nil {
-- 
2.43.0


From 10a51d3521abe48dacce9be0b66b8c4afb0a34bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:02 +0000
Subject: [PATCH 37/41] fix: derive the duration of the last Period of a
 dynamic MPD with mediaPresentationDuration

---
 mpd/period.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mpd/period.go b/mpd/period.go
index 28a6778..ec85e50 100644
--- a/mpd/period.go
+++ b/mpd/period.go
@@ -175,13 +175,14 @@ func (p *Period) GetDuration() (Duration, error) {
 			// Early available period
 			return 0, ErrUnknownPeriodDur
 		}
-		if idx == nrPeriods-1 {
-			return 0, ErrUnknownPeriodDur
+		end := m.MediaPresentationDuration
+		if idx < nrPeriods-1 {
+			end = m.Periods[idx+1].Start
 		}
-		if m.Periods[idx+1].Start == nil {
+		if end == nil {
 			return 0, ErrUnknownPeriodDur
 		}
-		return *m.Periods[idx+1].Start - start, nil
+		return *end - start, nil
 	}
 }
 
-- 
2.43.0


From 013164ff95444970ffcd84aab823c2008c74ef2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:23 +0000
Subject: [PATCH 38/41] fix: split list-valued attributes at XML white space
 only

---
 mpd/mpd.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 26a6f21..0155af1 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -1025,7 +1025,9 @@ func (s *StringNoWhitespaceVectorType) MarshalXMLAttr(name xml.Name) (xml.Attr,
 
 // UnmarshalXMLAttr splits the attribute value into its list items.
 func (s *StringNoWhitespaceVectorType) UnmarshalXMLAttr(attr xml.Attr) error {
-	*s = strings.Fields(attr.Value)
+	*s = strings.FieldsFunc(attr.Value, func(r rune) bool {
+		return r == ' ' || r == '\t' || r == '\n' || r == '\r' // what XML calls whitespace
+	})
 	return nil
 }
 
-- 
2.43.0


From e2409c63a20ad5d060831e5d8bfea76c1a86a890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:02 +0000
Subject: [PATCH 39/41] fix: refuse directives that a reader takes for
 something else

EncodeToken wrote directives whose comment has no end (<!-->) or that begin
like a comment, a CDATA section or a quoted text, and what followed was lost
to any reader.
---
 xml/marshal.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index 36ff203..52bb28d 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -297,6 +297,10 @@ func (enc *Encoder) EncodeToken(t Token) error {
 		}
 		p.WriteString("?>")
 	case Directive:
+		if len(t) == 0 || bytes.IndexByte([]byte(`-[<>'"`), t[0]) >= 0 {
+			// A reader would take it for a comment or something else.
+			return fmt.Errorf("xml: EncodeToken of Directive without a name")
+		}
 		if !isValidDirective(t) {
 			return fmt.Errorf("xml: EncodeToken of Directive containing wrong < or > markers")
 		}
@@ -317,12 +321,13 @@ func isValidDirective(dir Directive) bool {
 		depth     int
 		inquote   uint8
 		incomment bool
+		text      int // where the text of the comment begins
 	)
 	for i, c := range dir {
 		switch {
 		case incomment:
 			if c == '>' {
-				if n := 1 + i - len(endComment); n >= 0 && bytes.Equal(dir[n:i+1], endComment) {
+				if n := 1 + i - len(endComment); n >= text && bytes.Equal(dir[n:i+1], endComment) {
 					incomment = false
 				}
 			}
@@ -337,6 +342,7 @@ func isValidDirective(dir Directive) bool {
 		case c == '<':
 			if i+len(begComment) < len(dir) && bytes.Equal(dir[i:i+len(begComment)], begComment) {
 				incomment = true
+				text = i + len(begComment)
 			} else {
 				depth++
 			}
-- 
2.43.0


From 1252e1363f95d186f0a00a14ccfbe9e85fc51ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:02 +0000
Subject: [PATCH 40/41] fix: refuse comments in EncodeToken that are no XML
 comments

Comments with -- or with - at their end cannot be read back by this package
or any other.
---
 xml/marshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xml/marshal.go b/xml/marshal.go
index 52bb28d..369a567 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -273,6 +273,10 @@ func (enc *Encoder) EncodeToken(t Token) error {
 		if bytes.Contains(t, endComment) {
 			return fmt.Errorf("xml: EncodeToken of Comment containing --> marker")
 		}
+		if bytes.Contains(t, ddBytes) || bytes.HasSuffix(t, ddBytes[:1]) {
+			// No reader would take it.
+			return fmt.Errorf("xml: EncodeToken of Comment containing -- or ending in -")
+		}
 		p.WriteString("<!--")
 		p.Write(t)
 		p.WriteString("-->")
-- 
2.43.0


From 40af6e68d253913f94587453dbecc68dde89b0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:27 +0000
Subject: [PATCH 41/41] fix: ParseDuration lost nanoseconds of long durations
 with decimals (seconds were read as float64)

---
 mpd/duration.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/mpd/duration.go b/mpd/duration.go
index b72443d..0771437 100644
--- a/mpd/duration.go
+++ b/mpd/duration.go
@@ -286,15 +286,15 @@ func ParseDuration(str string) (time.Duration, error) {
 				return 0, err
 			}
 		case 'S':
-			f, err := strconv.ParseFloat(numStr, 64)
+			secs, frac, _ := strings.Cut(numStr, ".")
+			n, err := strconv.ParseUint(secs, 10, 64)
 			if err != nil {
 				return 0, newParseDurationError("error parsing Seconds")
 			}
-			f = math.Round(f * float64(time.Second))
-			if f >= math.MaxInt64 {
-				return 0, newParseDurationError("duration is out of range")
+			if total, err = addDuration(total, n, time.Second); err != nil {
+				return 0, err
 			}
-			if total, err = addDuration(total, uint64(f), time.Nanosecond); err != nil {
+			if total, err = addDuration(total, nanoseconds(frac), time.Nanosecond); err != nil {
 				return 0, err
 			}
 		}
@@ -305,6 +305,21 @@ func ParseDuration(str string) (time.Duration, error) {
 	return total, nil
 }
 
+// nanoseconds returns the fraction of a second with the given decimals, rounded to nanoseconds.
+func nanoseconds(decimals string) uint64 {
+	var ns uint64
+	for i := range 9 {
+		ns *= 10
+		if i < len(decimals) {
+			ns += uint64(decimals[i] - '0')
+		}
+	}
+	if len(decimals) > 9 && decimals[9] >= '5' {
+		ns++
+	}
+	return ns
+}
+
 // addDuration returns total + n*unit, or an error if that does not fit in a time.Duration.
 func addDuration(total time.Duration, n uint64, unit time.Duration) (time.Duration, error) {
 	if n > uint64((math.MaxInt64-total)/unit) {
-- 
2.43.0

