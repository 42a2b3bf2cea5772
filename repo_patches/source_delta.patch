From 3ead39c5337027e2021c4325ac903b30bdade686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:44 +0000
Subject: [PATCH 01/35] fix: write bytes constants with two hex digits per byte

---
 templates/goshared/register.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index e532d08..6223918 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -199,7 +199,7 @@ func (fns goSharedFuncs) isBytes(f interface {
 func (fns goSharedFuncs) byteStr(x []byte) string {
 	elms := make([]string, len(x))
 	for i, b := range x {
-		elms[i] = fmt.Sprintf(`\x%X`, b)
+		elms[i] = fmt.Sprintf(`\x%02X`, b)
 	}
 
 	return fmt.Sprintf(`"%s"`, strings.Join(elms, ""))
-- 
2.43.0


From d6d782a0c171fff9b54fd52712de86fe2146346b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:44 +0000
Subject: [PATCH 02/35] fix: hostname rule no longer folds non-ASCII letters
 into ASCII

---
 templates/goshared/known.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/goshared/known.go b/templates/goshared/known.go
index ad32cfc..d5b5c45 100644
--- a/templates/goshared/known.go
+++ b/templates/goshared/known.go
@@ -2,7 +2,7 @@ package goshared
 
 const hostTpl = `
 	func (m {{ (msgTyp .).Pointer }}) _validateHostname(host string) error {
-		s := strings.ToLower(strings.TrimSuffix(host, "."))
+		s := strings.TrimSuffix(host, ".")
 
 		if len(host) > 253 {
 			return errors.New("hostname cannot exceed 253 characters")
@@ -22,7 +22,7 @@ const hostTpl = `
 			}
 
 			for _, r := range part {
-				if (r < 'a' || r > 'z') && (r < '0' || r > '9') && r != '-' {
+				if (r < 'A' || r > 'Z') && (r < 'a' || r > 'z') && (r < '0' || r > '9') && r != '-' {
 					return fmt.Errorf("hostname parts can only contain alphanumeric characters or hyphens, got %q", string(r))
 				}
 			}
-- 
2.43.0


From 27170cd361ea9c54835036ca0d21b6bc5ec6a9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:44 +0000
Subject: [PATCH 03/35] fix: email rule splits the address at its last @

---
 templates/goshared/known.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/templates/goshared/known.go b/templates/goshared/known.go
index d5b5c45..538ddca 100644
--- a/templates/goshared/known.go
+++ b/templates/goshared/known.go
@@ -44,13 +44,13 @@ const emailTpl = `
 			return errors.New("email addresses cannot exceed 254 characters")
 		}
 
-		parts := strings.SplitN(addr, "@", 2)
+		at := strings.LastIndex(addr, "@")
 
-		if len(parts[0]) > 64 {
+		if at > 64 {
 			return errors.New("email address local phrase cannot exceed 64 characters")
 		}
 
-		return m._validateHostname(parts[1])
+		return m._validateHostname(addr[at+1:])
 	}
 `
 
-- 
2.43.0


From a7e1771728bdda57d80c3b41224b8326c26bb304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:23 +0000
Subject: [PATCH 04/35] fix: mark violations of map keys as key violations

---
 templates/shared/context.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/templates/shared/context.go b/templates/shared/context.go
index a374135..dd8b985 100644
--- a/templates/shared/context.go
+++ b/templates/shared/context.go
@@ -54,6 +54,7 @@ func (ctx RuleContext) Key(name, idx string) (out RuleContext, err error) {
 	out.Field = ctx.Field
 	out.AccessorOverride = name
 	out.Index = idx
+	out.OnKey = true
 
 	out.Typ, out.Rules, out.MessageRules, _ = resolveRules(ctx.Field.Type().Key(), rules.GetKeys())
 
-- 
2.43.0


From ea91b5bd16c0805ea669f97c15c015dc4fddb607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:23 +0000
Subject: [PATCH 05/35] fix: HTTP header name rule no longer accepts a comma

---
 module/checker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/module/checker.go b/module/checker.go
index d8beabe..cad70d7 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -14,7 +14,7 @@ import (
 )
 
 var unknown = ""
-var httpHeaderName = "^:?[0-9a-zA-Z!#$%&'*+-.^_|~\x60]+$"
+var httpHeaderName = "^:?[0-9a-zA-Z!#$%&'*+\\-.^_|~\x60]+$"
 var httpHeaderValue = "^[^\u0000-\u0008\u000A-\u001F\u007F]*$"
 var headerString = "^[^\u0000\u000A\u000D]*$" // For non-strict validation.
 
-- 
2.43.0


From 607aa641eefaaa6f177fcaa8c0ef0cd3ff8e83f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:23 +0000
Subject: [PATCH 06/35] fix: generated Go compiles when no rule reads a map's
 key

---
 templates/goshared/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/goshared/map.go b/templates/goshared/map.go
index cadf990..1655ac7 100644
--- a/templates/goshared/map.go
+++ b/templates/goshared/map.go
@@ -37,7 +37,7 @@ const mapTpl = `
 
 	{{ if or $r.GetNoSparse (ne (.Elem "" "").Typ "none") (ne (.Key "" "").Typ "none") }}
 		for key, val := range {{ accessor . }} {
-			_ = val
+			_, _ = key, val
 
 			{{ if $r.GetNoSparse }}
 				if val == nil {
-- 
2.43.0


From 4d30426079e58efbdcb7dfe5efeac8fcf4dea2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 07/35] fix: refuse Any, Duration and Timestamp rules on fields
 of another type

The rule checker never looked at the field, so such rules were accepted
and produced code that does not compile (or panicked in the plugin).
---
 module/checker.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/module/checker.go b/module/checker.go
index cad70d7..910810f 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -331,10 +331,14 @@ func (m *Module) CheckMap(ft FieldType, r *validate.MapRules) {
 }
 
 func (m *Module) CheckAny(ft FieldType, r *validate.AnyRules) {
+	m.mustWellKnown(ft, pgs.AnyWKT)
+
 	m.checkIns(len(r.In), len(r.NotIn))
 }
 
 func (m *Module) CheckDuration(ft FieldType, r *validate.DurationRules) {
+	m.mustWellKnown(ft, pgs.DurationWKT)
+
 	m.checkNums(
 		len(r.GetIn()),
 		len(r.GetNotIn()),
@@ -356,6 +360,8 @@ func (m *Module) CheckDuration(ft FieldType, r *validate.DurationRules) {
 }
 
 func (m *Module) CheckTimestamp(ft FieldType, r *validate.TimestampRules) {
+	m.mustWellKnown(ft, pgs.TimestampWKT)
+
 	m.checkNums(0, 0,
 		m.checkTS(r.GetConst()),
 		m.checkTS(r.GetLt()),
@@ -390,6 +396,12 @@ func (m *Module) mustFieldType(ft FieldType) pgs.FieldType {
 	return typ
 }
 
+func (m *Module) mustWellKnown(typ FieldType, wkt pgs.WellKnownType) {
+	emb := typ.Embed()
+	m.Assert(emb != nil && emb.WellKnownType() == wkt,
+		"field is not a google.protobuf.", wkt, " but got rules for it")
+}
+
 func (m *Module) checkNums(in, notIn int, ci, lti, ltei, gti, gtei interface{}) {
 	m.checkIns(in, notIn)
 
-- 
2.43.0


From eef151fcf7024e309f04b0f78f0297e7c9005d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 08/35] fix: refuse message rules on items, keys and values
 that are no messages

---
 module/checker.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/module/checker.go b/module/checker.go
index 910810f..0374af6 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -71,6 +71,8 @@ func (m *Module) CheckFieldRules(typ FieldType, rules *validate.FieldRules) {
 		return
 	}
 
+	m.Assert(rules.GetMessage() == nil || typ.Embed() != nil, "field is not embedded but got message rules")
+
 	switch r := rules.Type.(type) {
 	case *validate.FieldRules_Float:
 		m.MustType(typ, pgs.FloatT, pgs.FloatValueWKT)
-- 
2.43.0


From 3293f5996116b99255e8cadaf353bf57fd06dd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 09/35] fix: compare timestamp bounds without wrapping

UnixNano wraps outside 1678-2262, so distinct bounds could look equal
and be refused.
---
 module/checker.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/module/checker.go b/module/checker.go
index 0374af6..cd127b2 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -8,7 +8,6 @@ import (
 
 	"github.com/envoyproxy/protoc-gen-validate/validate"
 	"github.com/lyft/protoc-gen-star"
-	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/known/durationpb"
 	"google.golang.org/protobuf/types/known/timestamppb"
 )
@@ -510,12 +509,12 @@ func (m *Module) checkDur(d *durationpb.Duration) *time.Duration {
 	return &dur
 }
 
-func (m *Module) checkTS(ts *timestamppb.Timestamp) *int64 {
+func (m *Module) checkTS(ts *timestamppb.Timestamp) *time.Time {
 	if ts == nil {
 		return nil
 	}
 
 	t, err := ts.AsTime(), ts.CheckValid()
 	m.CheckErr(err, "could not resolve timestamp")
-	return proto.Int64(t.UnixNano())
+	return &t
 }
-- 
2.43.0


From 98fd244a60ab8fdebfd41a82e218971c9126a6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:26 +0000
Subject: [PATCH 10/35] fix: refuse duration constants outside the range of
 time.Duration

AsDuration saturates silently, so such a bound was enforced at another
value than written.
---
 module/checker.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/module/checker.go b/module/checker.go
index cd127b2..4701f25 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/envoyproxy/protoc-gen-validate/validate"
 	"github.com/lyft/protoc-gen-star"
+	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/known/durationpb"
 	"google.golang.org/protobuf/types/known/timestamppb"
 )
@@ -506,6 +507,7 @@ func (m *Module) checkDur(d *durationpb.Duration) *time.Duration {
 
 	dur, err := d.AsDuration(), d.CheckValid()
 	m.CheckErr(err, "could not resolve duration")
+	m.Assert(proto.Equal(durationpb.New(dur), d), "duration is out of range")
 	return &dur
 }
 
-- 
2.43.0


From 9027ee2a806ec36410e3345ee5ab8149e86316f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:26 +0000
Subject: [PATCH 11/35] fix: compare affix lengths with large max_len and
 max_bytes as unsigned

A maximum above MaxInt64 turned negative, so any prefix, suffix or
contains beside it was refused.
---
 module/checker.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/module/checker.go b/module/checker.go
index 4701f25..4ba32fe 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -214,10 +214,10 @@ func (m *Module) CheckString(r *validate.StringRules) {
 	m.checkPattern(r.Pattern, len(r.In))
 
 	if r.MaxLen != nil {
-		max := int(r.GetMaxLen())
-		m.Assert(utf8.RuneCountInString(r.GetPrefix()) <= max, "`prefix` length exceeds the `max_len`")
-		m.Assert(utf8.RuneCountInString(r.GetSuffix()) <= max, "`suffix` length exceeds the `max_len`")
-		m.Assert(utf8.RuneCountInString(r.GetContains()) <= max, "`contains` length exceeds the `max_len`")
+		max := r.GetMaxLen()
+		m.Assert(uint64(utf8.RuneCountInString(r.GetPrefix())) <= max, "`prefix` length exceeds the `max_len`")
+		m.Assert(uint64(utf8.RuneCountInString(r.GetSuffix())) <= max, "`suffix` length exceeds the `max_len`")
+		m.Assert(uint64(utf8.RuneCountInString(r.GetContains())) <= max, "`contains` length exceeds the `max_len`")
 
 		m.Assert(
 			r.MaxBytes == nil || r.GetMaxBytes() >= r.GetMaxLen(),
@@ -225,10 +225,10 @@ func (m *Module) CheckString(r *validate.StringRules) {
 	}
 
 	if r.MaxBytes != nil {
-		max := int(r.GetMaxBytes())
-		m.Assert(len(r.GetPrefix()) <= max, "`prefix` length exceeds the `max_bytes`")
-		m.Assert(len(r.GetSuffix()) <= max, "`suffix` length exceeds the `max_bytes`")
-		m.Assert(len(r.GetContains()) <= max, "`contains` length exceeds the `max_bytes`")
+		max := r.GetMaxBytes()
+		m.Assert(uint64(len(r.GetPrefix())) <= max, "`prefix` length exceeds the `max_bytes`")
+		m.Assert(uint64(len(r.GetSuffix())) <= max, "`suffix` length exceeds the `max_bytes`")
+		m.Assert(uint64(len(r.GetContains())) <= max, "`contains` length exceeds the `max_bytes`")
 	}
 }
 
@@ -238,10 +238,10 @@ func (m *Module) CheckBytes(r *validate.BytesRules) {
 	m.checkPattern(r.Pattern, len(r.In))
 
 	if r.MaxLen != nil {
-		max := int(r.GetMaxLen())
-		m.Assert(len(r.GetPrefix()) <= max, "`prefix` length exceeds the `max_len`")
-		m.Assert(len(r.GetSuffix()) <= max, "`suffix` length exceeds the `max_len`")
-		m.Assert(len(r.GetContains()) <= max, "`contains` length exceeds the `max_len`")
+		max := r.GetMaxLen()
+		m.Assert(uint64(len(r.GetPrefix())) <= max, "`prefix` length exceeds the `max_len`")
+		m.Assert(uint64(len(r.GetSuffix())) <= max, "`suffix` length exceeds the `max_len`")
+		m.Assert(uint64(len(r.GetContains())) <= max, "`contains` length exceeds the `max_len`")
 	}
 }
 
-- 
2.43.0


From 728099607095cc12f50671d2acb3815842090e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:26 +0000
Subject: [PATCH 12/35] fix: refuse len beside min_len or max_len on bytes
 fields

---
 module/checker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/module/checker.go b/module/checker.go
index 4ba32fe..dc910ad 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -233,6 +233,7 @@ func (m *Module) CheckString(r *validate.StringRules) {
 }
 
 func (m *Module) CheckBytes(r *validate.BytesRules) {
+	m.checkLen(r.Len, r.MinLen, r.MaxLen)
 	m.checkMinMax(r.MinLen, r.MaxLen)
 	m.checkIns(len(r.In), len(r.NotIn))
 	m.checkPattern(r.Pattern, len(r.In))
-- 
2.43.0


From 1236aa6ad061a040dc5c919db8922feef427ac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:50 +0000
Subject: [PATCH 13/35] fix: declare the lookup tables of every rule position
 in Go

in, not_in and pattern rules of list items and of map keys and values
referred to tables that were declared only for some types of items, and
the patterns of a map's keys and values shared one name. Tables with a
repeated constant, and those of bytes wrappers, did not compile.
---
 templates/goshared/any.go      |  6 +--
 templates/goshared/bytes.go    |  8 ++--
 templates/goshared/duration.go |  6 +--
 templates/goshared/in.go       |  6 +--
 templates/goshared/msg.go      | 83 ++++++++--------------------------
 templates/goshared/register.go | 78 ++++++++++++++++++--------------
 templates/goshared/repeated.go |  6 +--
 templates/goshared/string.go   |  4 +-
 8 files changed, 82 insertions(+), 115 deletions(-)

diff --git a/templates/goshared/any.go b/templates/goshared/any.go
index a120592..8e1625d 100644
--- a/templates/goshared/any.go
+++ b/templates/goshared/any.go
@@ -1,17 +1,17 @@
 package goshared
 
-const anyTpl = `{{ $f := .Field }}{{ $r := .Rules }}
+const anyTpl = `{{ $r := .Rules }}
 	{{ template "required" . }}
 
 	if a := {{ accessor . }}; a != nil {
 		{{ if $r.In }}
-			if _, ok := {{ lookup $f "InLookup" }}[a.GetTypeUrl()]; !ok {
+			if _, ok := {{ lookup . "InLookup" }}[a.GetTypeUrl()]; !ok {
 				err := {{ err . "type URL must be in list " $r.In }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ else if $r.NotIn }}
-			if _, ok := {{ lookup $f "NotInLookup" }}[a.GetTypeUrl()]; ok {
+			if _, ok := {{ lookup . "NotInLookup" }}[a.GetTypeUrl()]; ok {
 				err := {{ err . "type URL must not be in list " $r.NotIn }}
 				if !all { return err }
 				errors = append(errors, err)
diff --git a/templates/goshared/bytes.go b/templates/goshared/bytes.go
index e9caa66..517b4ba 100644
--- a/templates/goshared/bytes.go
+++ b/templates/goshared/bytes.go
@@ -1,7 +1,7 @@
 package goshared
 
 const bytesTpl = `
-	{{ $f := .Field }}{{ $r := .Rules }}
+	{{ $r := .Rules }}
 
 	{{ if $r.GetIgnoreEmpty }}
 		if len({{ accessor . }}) > 0 {
@@ -68,13 +68,13 @@ const bytesTpl = `
 	{{ end }}
 
 	{{ if $r.In }}
-		if _, ok := {{ lookup $f "InLookup" }}[string({{ accessor . }})]; !ok {
+		if _, ok := {{ lookup . "InLookup" }}[string({{ accessor . }})]; !ok {
 			err := {{ err . "value must be in list " $r.In }}
 			if !all { return err }
 			errors = append(errors, err)
 		}
 	{{ else if $r.NotIn }}
-		if _, ok := {{ lookup $f "NotInLookup" }}[string({{ accessor . }})]; ok {
+		if _, ok := {{ lookup . "NotInLookup" }}[string({{ accessor . }})]; ok {
 			err := {{ err . "value must not be in list " $r.NotIn }}
 			if !all { return err }
 			errors = append(errors, err)
@@ -110,7 +110,7 @@ const bytesTpl = `
 	{{ end }}
 
 	{{ if $r.Pattern }}
-	if !{{ lookup $f "Pattern" }}.Match({{ accessor . }}) {
+	if !{{ lookup . "Pattern" }}.Match({{ accessor . }}) {
 		err := {{ err . "value does not match regex pattern " (lit $r.GetPattern) }}
 		if !all { return err }
 		errors = append(errors, err)
diff --git a/templates/goshared/duration.go b/templates/goshared/duration.go
index c039ab5..16636aa 100644
--- a/templates/goshared/duration.go
+++ b/templates/goshared/duration.go
@@ -1,6 +1,6 @@
 package goshared
 
-const durationcmpTpl = `{{ $f := .Field }}{{ $r := .Rules }}
+const durationcmpTpl = `{{ $r := .Rules }}
 			{{  if $r.Const }}
 				if dur != {{ durLit $r.Const }} {
 					err := {{ err . "value must equal " (durStr $r.Const) }}
@@ -103,13 +103,13 @@ const durationcmpTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 
 
 			{{ if $r.In }}
-				if _, ok := {{ lookup $f "InLookup" }}[dur]; !ok {
+				if _, ok := {{ lookup . "InLookup" }}[dur]; !ok {
 					err := {{ err . "value must be in list " $r.In }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
 			{{ else if $r.NotIn }}
-				if _, ok := {{ lookup $f "NotInLookup" }}[dur]; ok {
+				if _, ok := {{ lookup . "NotInLookup" }}[dur]; ok {
 					err := {{ err . "value must not be in list " $r.NotIn }}
 					if !all { return err }
 					errors = append(errors, err)
diff --git a/templates/goshared/in.go b/templates/goshared/in.go
index b6fdfa4..a20114d 100644
--- a/templates/goshared/in.go
+++ b/templates/goshared/in.go
@@ -1,14 +1,14 @@
 package goshared
 
-const inTpl = `{{ $f := .Field }}{{ $r := .Rules }}
+const inTpl = `{{ $r := .Rules }}
 	{{ if $r.In }}
-		if _, ok := {{ lookup $f "InLookup" }}[{{ accessor . }}]; !ok {
+		if _, ok := {{ lookup . "InLookup" }}[{{ accessor . }}]; !ok {
 			err := {{ err . "value must be in list " $r.In }}
 			if !all { return err }
 			errors = append(errors, err)
 		}
 	{{ else if $r.NotIn }}
-		if _, ok := {{ lookup $f "NotInLookup" }}[{{ accessor . }}]; ok {
+		if _, ok := {{ lookup . "NotInLookup" }}[{{ accessor . }}]; ok {
 			err := {{ err . "value must not be in list " $r.NotIn }}
 			if !all { return err }
 			errors = append(errors, err)
diff --git a/templates/goshared/msg.go b/templates/goshared/msg.go
index 4e09f77..9da8965 100644
--- a/templates/goshared/msg.go
+++ b/templates/goshared/msg.go
@@ -132,79 +132,34 @@ var _ interface{
 	ErrorName() string
 } = {{ errname . }}{}
 
-{{ range .Fields }}{{ with (context .) }}{{ $f := .Field }}
+{{ range .Fields }}{{ with (context .) }}
+	{{ template "lookups" . }}
+	{{ if eq .Typ "map" }}{{ template "lookups" (.Key "key" "key") }}{{ end }}
+	{{ if or (eq .Typ "repeated") (eq .Typ "map") }}{{ template "lookups" (.Elem "val" "key") }}{{ end }}
+{{ end }}{{ end }}
+{{- end -}}
+`
+
+// lookupsTpl declares the tables and patterns that the rules of one context
+// (a field, or the keys, values or items of one) refer to.
+const lookupsTpl = `
 	{{ if has .Rules "In" }}{{ if .Rules.In }}
-		var {{ lookup .Field "InLookup" }} = map[{{ inType .Field .Rules.In }}]struct{}{
-			{{- range .Rules.In }}
-				{{ inKey $f . }}: {},
+		var {{ lookup . "InLookup" }} = map[{{ inType . .Rules.In }}]struct{}{
+			{{- range inKeys .Rules.In }}
+				{{ . }}: {},
 			{{- end }}
 		}
 	{{ end }}{{ end }}
 
 	{{ if has .Rules "NotIn" }}{{ if .Rules.NotIn }}
-		var {{ lookup .Field "NotInLookup" }} = map[{{ inType .Field .Rules.In }}]struct{}{
-			{{- range .Rules.NotIn }}
-				{{ inKey $f . }}: {},
-			{{- end }}
-		}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Pattern"}}{{ if .Rules.Pattern }}
-		var {{ lookup .Field "Pattern" }} = regexp.MustCompile({{ lit .Rules.GetPattern }})
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-	{{ if has .Rules.Items.GetString_ "Pattern" }} {{ if .Rules.Items.GetString_.Pattern }}
-		var {{ lookup .Field "Pattern" }} = regexp.MustCompile({{ lit .Rules.Items.GetString_.GetPattern }})
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-	{{ if has .Rules.Items.GetString_ "In" }} {{ if .Rules.Items.GetString_.In }}
-		var {{ lookup .Field "InLookup" }} = map[string]struct{}{
-			{{- range .Rules.Items.GetString_.In }}
-				{{ inKey $f . }}: {},
-			{{- end }}
-		}
-	{{ end }}{{ end }}
-	{{ if has .Rules.Items.GetEnum "In" }} {{ if .Rules.Items.GetEnum.In }}
-		var {{ lookup .Field "InLookup" }} = map[{{ inType .Field .Rules.Items.GetEnum.In }}]struct{}{
-			{{- range .Rules.Items.GetEnum.In }}
-				{{ inKey $f . }}: {},
+		var {{ lookup . "NotInLookup" }} = map[{{ inType . .Rules.NotIn }}]struct{}{
+			{{- range inKeys .Rules.NotIn }}
+				{{ . }}: {},
 			{{- end }}
 		}
 	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-	{{ if has .Rules.Items.GetString_ "NotIn" }} {{ if .Rules.Items.GetString_.NotIn }}
-		var {{ lookup .Field "NotInLookup" }} = map[string]struct{}{
-			{{- range .Rules.Items.GetString_.NotIn }}
-				{{ inKey $f . }}: {},
-			{{- end }}
-		}
-	{{ end }}{{ end }}
-	{{ if has .Rules.Items.GetEnum "NotIn" }} {{ if .Rules.Items.GetEnum.NotIn }}
-		var {{ lookup .Field "NotInLookup" }} = map[{{ inType .Field .Rules.Items.GetEnum.NotIn }}]struct{}{
-			{{- range .Rules.Items.GetEnum.NotIn }}
-				{{ inKey $f . }}: {},
-			{{- end }}
-		}
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Keys"}}{{ if .Rules.Keys }}
-	{{ if has .Rules.Keys.GetString_ "Pattern" }} {{ if .Rules.Keys.GetString_.Pattern }}
-		var {{ lookup .Field "Pattern" }} = regexp.MustCompile({{ lit .Rules.Keys.GetString_.GetPattern }})
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
 
-	{{ if has .Rules "Values"}}{{ if .Rules.Values }}
-	{{ if has .Rules.Values.GetString_ "Pattern" }} {{ if .Rules.Values.GetString_.Pattern }}
-		var {{ lookup .Field "Pattern" }} = regexp.MustCompile({{ lit .Rules.Values.GetString_.GetPattern }})
+	{{ if has .Rules "Pattern" }}{{ if .Rules.Pattern }}
+		var {{ lookup . "Pattern" }} = regexp.MustCompile({{ lit .Rules.GetPattern }})
 	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-{{ end }}{{ end }}
-{{- end -}}
 `
diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index 6223918..a933426 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -32,7 +32,7 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 		"errIdxCause":   fns.errIdxCause,
 		"errname":       fns.errName,
 		"multierrname":  fns.multiErrName,
-		"inKey":         fns.inKey,
+		"inKeys":        fns.inKeys,
 		"inType":        fns.inType,
 		"isBytes":       fns.isBytes,
 		"lit":           fns.lit,
@@ -51,6 +51,7 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 	})
 
 	template.Must(tpl.New("msg").Parse(msgTpl))
+	template.Must(tpl.New("lookups").Parse(lookupsTpl))
 	template.Must(tpl.New("const").Parse(constTpl))
 	template.Must(tpl.New("ltgt").Parse(ltgtTpl))
 	template.Must(tpl.New("in").Parse(inTpl))
@@ -154,11 +155,15 @@ func (fns goSharedFuncs) errIdx(ctx shared.RuleContext, idx string, reason ...in
 	return fns.errIdxCause(ctx, idx, "nil", reason...)
 }
 
-func (fns goSharedFuncs) lookup(f pgs.Field, name string) string {
+func (fns goSharedFuncs) lookup(ctx shared.RuleContext, name string) string {
+	if ctx.OnKey {
+		name = "Key" + name
+	}
+
 	return fmt.Sprintf(
 		"_%s_%s_%s",
-		fns.Name(f.Message()),
-		fns.Name(f),
+		fns.Name(ctx.Field.Message()),
+		fns.Name(ctx.Field),
 		name,
 	)
 }
@@ -209,40 +214,47 @@ func (fns goSharedFuncs) oneofTypeName(f pgs.Field) pgsgo.TypeName {
 	return pgsgo.TypeName(fns.OneofOption(f)).Pointer()
 }
 
-func (fns goSharedFuncs) inType(f pgs.Field, x interface{}) string {
-	switch f.Type().ProtoType() {
-	case pgs.BytesT:
+// inType is the type of the keys of the lookup table of x, the list of an "in"
+// or "not_in" rule.
+func (fns goSharedFuncs) inType(ctx shared.RuleContext, x interface{}) string {
+	switch x.(type) {
+	case [][]byte:
 		return "string"
-	case pgs.MessageT:
-		switch x.(type) {
-		case []*durationpb.Duration:
-			return "time.Duration"
-		default:
-			return pgsgo.TypeName(fmt.Sprintf("%T", x)).Element().String()
-		}
-	case pgs.EnumT:
-		if f.Type().IsRepeated() {
-			return strings.TrimLeft(fns.Type(f).String(), "[]")
-		} else {
-			return fns.Type(f).String()
-		}
-	default:
-		return fns.Type(f).String()
+	case []*durationpb.Duration:
+		return "time.Duration"
+	}
+
+	if ctx.Typ == "enum" {
+		return fns.Type(ctx.Field).Element().Value().String()
 	}
+
+	return pgsgo.TypeName(fmt.Sprintf("%T", x)).Element().String()
 }
 
-func (fns goSharedFuncs) inKey(f pgs.Field, x interface{}) string {
-	switch f.Type().ProtoType() {
-	case pgs.BytesT:
-		return fns.byteStr(x.([]byte))
-	case pgs.MessageT:
-		switch x := x.(type) {
-		case *durationpb.Duration:
-			dur := x.AsDuration()
-			return fns.lit(int64(dur))
-		default:
-			return fns.lit(x)
+// inKeys are the distinct keys of the lookup table of x, the list of an "in"
+// or "not_in" rule.
+func (fns goSharedFuncs) inKeys(x interface{}) []string {
+	var out []string
+	seen := map[string]bool{}
+
+	val := reflect.ValueOf(x)
+	for i, l := 0, val.Len(); i < l; i++ {
+		key := fns.inKey(val.Index(i).Interface())
+		if !seen[key] {
+			seen[key] = true
+			out = append(out, key)
 		}
+	}
+
+	return out
+}
+
+func (fns goSharedFuncs) inKey(x interface{}) string {
+	switch x := x.(type) {
+	case []byte:
+		return fns.byteStr(x)
+	case *durationpb.Duration:
+		return fns.lit(int64(x.AsDuration()))
 	default:
 		return fns.lit(x)
 	}
diff --git a/templates/goshared/repeated.go b/templates/goshared/repeated.go
index a98f350..d08fbf0 100644
--- a/templates/goshared/repeated.go
+++ b/templates/goshared/repeated.go
@@ -36,7 +36,7 @@ const repTpl = `
 	{{ end }}
 
 	{{ if $r.GetUnique }}
-		{{ lookup $f "Unique" }} := {{ if isBytes $f.Type.Element -}}
+		{{ lookup $ "Unique" }} := {{ if isBytes $f.Type.Element -}}
 			make(map[string]struct{}, len({{ accessor . }}))
 		{{ else -}}
 			make(map[{{ (typ $f).Element }}]struct{}, len({{ accessor . }}))
@@ -47,12 +47,12 @@ const repTpl = `
 		for idx, item := range {{ accessor . }} {
 			_, _ = idx, item
 			{{ if $r.GetUnique }}
-				if _, exists := {{ lookup $f "Unique" }}[{{ if isBytes $f.Type.Element }}string(item){{ else }}item{{ end }}]; exists {
+				if _, exists := {{ lookup $ "Unique" }}[{{ if isBytes $f.Type.Element }}string(item){{ else }}item{{ end }}]; exists {
 					err := {{ errIdx . "idx" "repeated value must contain unique items" }}
 					if !all { return err }
 					errors = append(errors, err)
 				} else {
-					{{ lookup $f "Unique" }}[{{ if isBytes $f.Type.Element }}string(item){{ else }}item{{ end }}] = struct{}{}
+					{{ lookup $ "Unique" }}[{{ if isBytes $f.Type.Element }}string(item){{ else }}item{{ end }}] = struct{}{}
 				}
 			{{ end }}
 
diff --git a/templates/goshared/string.go b/templates/goshared/string.go
index 8df69b3..4c59798 100644
--- a/templates/goshared/string.go
+++ b/templates/goshared/string.go
@@ -1,7 +1,7 @@
 package goshared
 
 const strTpl = `
-	{{ $f := .Field }}{{ $r := .Rules }}
+	{{ $r := .Rules }}
 
 	{{ if $r.GetIgnoreEmpty }}
 		if {{ accessor . }} != "" {
@@ -176,7 +176,7 @@ const strTpl = `
 	{{ end }}
 
 	{{ if $r.Pattern }}
-		if !{{ lookup $f "Pattern" }}.MatchString({{ accessor . }}) {
+		if !{{ lookup . "Pattern" }}.MatchString({{ accessor . }}) {
 			err := {{ err . "value does not match regex pattern " (lit $r.GetPattern) }}
 			if !all { return err }
 			errors = append(errors, err)
-- 
2.43.0


From 096c2269040ef899edebf67b04d7a0cdeffe788c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 14/35] fix: apply rules to wrapped list items and map values
 in Go

Rules on the elements of a repeated or map field of a wrapper type made
the plugin crash, errors of unwrapped values lost their index, and the
string helpers they need were not generated.
---
 templates/goshared/register.go |  8 +++++++-
 templates/shared/context.go    |  2 ++
 templates/shared/well_known.go | 10 ++++++++--
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index a933426..46599f5 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -303,8 +303,14 @@ func (fns goSharedFuncs) unwrap(ctx shared.RuleContext, name string) (shared.Rul
 		return ctx, err
 	}
 
+	typ := ctx.Field.Type()
+	emb := typ.Embed()
+	if typ.IsRepeated() || typ.IsMap() {
+		emb = typ.Element().Embed()
+	}
+
 	ctx.AccessorOverride = fmt.Sprintf("%s.Get%s()", name,
-		pgsgo.PGGUpperCamelCase(ctx.Field.Type().Embed().Fields()[0].Name()))
+		pgsgo.PGGUpperCamelCase(emb.Fields()[0].Name()))
 
 	return ctx, nil
 }
diff --git a/templates/shared/context.go b/templates/shared/context.go
index dd8b985..e857a5f 100644
--- a/templates/shared/context.go
+++ b/templates/shared/context.go
@@ -105,6 +105,8 @@ func (ctx RuleContext) Unwrap(name string) (out RuleContext, err error) {
 		Rules:            ctx.Rules,
 		MessageRules:     ctx.MessageRules,
 		Typ:              ctx.WrapperTyp,
+		OnKey:            ctx.OnKey,
+		Index:            ctx.Index,
 		AccessorOverride: name,
 	}, nil
 }
diff --git a/templates/shared/well_known.go b/templates/shared/well_known.go
index 87f5e98..1c1a14b 100644
--- a/templates/shared/well_known.go
+++ b/templates/shared/well_known.go
@@ -34,7 +34,7 @@ func Needs(m pgs.Message, wk WellKnown) bool {
 		}
 
 		switch {
-		case f.Type().IsRepeated() && f.Type().Element().ProtoType() == pgs.StringT:
+		case f.Type().IsRepeated() && isString(f.Type().Element()):
 			if strRulesNeeds(rules.GetRepeated().GetItems().GetString_(), wk) {
 				return true
 			}
@@ -43,7 +43,7 @@ func Needs(m pgs.Message, wk WellKnown) bool {
 				strRulesNeeds(rules.GetMap().GetKeys().GetString_(), wk) {
 				return true
 			}
-			if f.Type().Element().ProtoType() == pgs.StringT &&
+			if isString(f.Type().Element()) &&
 				strRulesNeeds(rules.GetMap().GetValues().GetString_(), wk) {
 				return true
 			}
@@ -61,6 +61,12 @@ func Needs(m pgs.Message, wk WellKnown) bool {
 	return false
 }
 
+// isString returns true if the elements of a field are strings or wrapped ones.
+func isString(el pgs.FieldTypeElem) bool {
+	return el.ProtoType() == pgs.StringT ||
+		el.IsEmbed() && el.Embed().WellKnownType() == pgs.StringValueWKT
+}
+
 func strRulesNeeds(rules *validate.StringRules, wk WellKnown) bool {
 	switch wk {
 	case Email:
-- 
2.43.0


From d6b2bbd98d7348395f3451fdcf09643e69145255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:28 +0000
Subject: [PATCH 15/35] fix: declare the uuid pattern for nested messages in Go

The file-level pattern was generated only when a top-level message needed
it, so a uuid rule in a nested message alone did not compile.
---
 templates/shared/well_known.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/shared/well_known.go b/templates/shared/well_known.go
index 1c1a14b..184ae32 100644
--- a/templates/shared/well_known.go
+++ b/templates/shared/well_known.go
@@ -14,7 +14,7 @@ const (
 )
 
 func FileNeeds(f pgs.File, wk WellKnown) bool {
-	for _, msg := range f.Messages() {
+	for _, msg := range f.AllMessages() {
 		needed := Needs(msg, wk)
 		if needed {
 			return true
-- 
2.43.0


From f7305b143cfb0bf0efe9ee84c1d26302f6225d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:21 +0000
Subject: [PATCH 16/35] fix: render infinite and NaN rule constants in Go

They were printed as +Inf, -Inf and NaN, which are no Go expressions; a
list holding 0 and -0 repeated a key of its lookup table.
---
 templates/go/file.go           |  2 ++
 templates/goshared/ltgt.go     | 24 ++++++++++++------------
 templates/goshared/register.go | 14 ++++++++++++++
 3 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/templates/go/file.go b/templates/go/file.go
index 81cbf64..10924be 100644
--- a/templates/go/file.go
+++ b/templates/go/file.go
@@ -9,6 +9,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"math"
 	"net"
 	"net/mail"
 	"net/url"
@@ -29,6 +30,7 @@ var (
 	_ = bytes.MinRead
 	_ = errors.New("")
 	_ = fmt.Print
+	_ = math.Pi
 	_ = utf8.UTFMax
 	_ = (*regexp.Regexp)(nil)
 	_ = (*strings.Reader)(nil)
diff --git a/templates/goshared/ltgt.go b/templates/goshared/ltgt.go
index 06ca63b..f9b57ce 100644
--- a/templates/goshared/ltgt.go
+++ b/templates/goshared/ltgt.go
@@ -4,13 +4,13 @@ const ltgtTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 	{{ if $r.Lt }}
 		{{ if $r.Gt }}
 			{{  if gt $r.GetLt $r.GetGt }}
-				if val := {{ accessor . }};  val <= {{ $r.Gt }} || val >= {{ $r.Lt }} {
+				if val := {{ accessor . }};  val <= {{ lit $r.GetGt }} || val >= {{ lit $r.GetLt }} {
 					err := {{ err . "value must be inside range (" $r.GetGt ", " $r.GetLt ")" }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
 			{{ else }}
-				if val := {{ accessor . }}; val >= {{ $r.Lt }} && val <= {{ $r.Gt }} {
+				if val := {{ accessor . }}; val >= {{ lit $r.GetLt }} && val <= {{ lit $r.GetGt }} {
 					err := {{ err . "value must be outside range [" $r.GetLt ", " $r.GetGt "]" }}
 					if !all { return err }
 					errors = append(errors, err)
@@ -18,20 +18,20 @@ const ltgtTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 			{{ end }}
 		{{ else if $r.Gte }}
 			{{  if gt $r.GetLt $r.GetGte }}
-				if val := {{ accessor . }};  val < {{ $r.Gte }} || val >= {{ $r.Lt }} {
+				if val := {{ accessor . }};  val < {{ lit $r.GetGte }} || val >= {{ lit $r.GetLt }} {
 					err := {{ err . "value must be inside range [" $r.GetGte ", " $r.GetLt ")" }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
 			{{ else }}
-				if val := {{ accessor . }}; val >= {{ $r.Lt }} && val < {{ $r.Gte }} {
+				if val := {{ accessor . }}; val >= {{ lit $r.GetLt }} && val < {{ lit $r.GetGte }} {
 					err := {{ err . "value must be outside range [" $r.GetLt ", " $r.GetGte ")" }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
 			{{ end }}
 		{{ else }}
-			if {{ accessor . }} >= {{ $r.Lt }} {
+			if {{ accessor . }} >= {{ lit $r.GetLt }} {
 				err := {{ err . "value must be less than " $r.GetLt }}
 				if !all { return err }
 				errors = append(errors, err)
@@ -40,13 +40,13 @@ const ltgtTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 	{{ else if $r.Lte }}
 		{{ if $r.Gt }}
 			{{  if gt $r.GetLte $r.GetGt }}
-				if val := {{ accessor . }};  val <= {{ $r.Gt }} || val > {{ $r.Lte }} {
+				if val := {{ accessor . }};  val <= {{ lit $r.GetGt }} || val > {{ lit $r.GetLte }} {
 					err := {{ err . "value must be inside range (" $r.GetGt ", " $r.GetLte "]" }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
 			{{ else }}
-				if val := {{ accessor . }}; val > {{ $r.Lte }} && val <= {{ $r.Gt }} {
+				if val := {{ accessor . }}; val > {{ lit $r.GetLte }} && val <= {{ lit $r.GetGt }} {
 					err := {{ err . "value must be outside range (" $r.GetLte ", " $r.GetGt "]" }}
 					if !all { return err }
 					errors = append(errors, err)
@@ -54,33 +54,33 @@ const ltgtTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 			{{ end }}
 		{{ else if $r.Gte }}
 			{{ if gt $r.GetLte $r.GetGte }}
-				if val := {{ accessor . }};  val < {{ $r.Gte }} || val > {{ $r.Lte }} {
+				if val := {{ accessor . }};  val < {{ lit $r.GetGte }} || val > {{ lit $r.GetLte }} {
 					err := {{ err . "value must be inside range [" $r.GetGte ", " $r.GetLte "]" }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
 			{{ else }}
-				if val := {{ accessor . }}; val > {{ $r.Lte }} && val < {{ $r.Gte }} {
+				if val := {{ accessor . }}; val > {{ lit $r.GetLte }} && val < {{ lit $r.GetGte }} {
 					err := {{ err . "value must be outside range (" $r.GetLte ", " $r.GetGte ")" }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
 			{{ end }}
 		{{ else }}
-			if {{ accessor . }} > {{ $r.Lte }} {
+			if {{ accessor . }} > {{ lit $r.GetLte }} {
 				err := {{ err . "value must be less than or equal to " $r.GetLte }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ end }}
 	{{ else if $r.Gt }}
-		if {{ accessor . }} <= {{ $r.Gt }} {
+		if {{ accessor . }} <= {{ lit $r.GetGt }} {
 			err := {{ err . "value must be greater than " $r.GetGt }}
 			if !all { return err }
 			errors = append(errors, err)
 		}
 	{{ else if $r.Gte }}
-		if {{ accessor . }} < {{ $r.Gte }} {
+		if {{ accessor . }} < {{ lit $r.GetGte }} {
 			err := {{ err . "value must be greater than or equal to " $r.GetGte }}
 			if !all { return err }
 			errors = append(errors, err)
diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index 46599f5..72af0ed 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -2,6 +2,7 @@ package goshared
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"strings"
 	"text/template"
@@ -184,6 +185,19 @@ func (fns goSharedFuncs) lit(x interface{}) string {
 		return fmt.Sprintf("%q", x)
 	case reflect.Uint8:
 		return fmt.Sprintf("0x%X", x)
+	case reflect.Float32, reflect.Float64:
+		switch f := val.Float(); {
+		case math.IsInf(f, 1):
+			return fmt.Sprintf("%s(math.Inf(1))", val.Kind())
+		case math.IsInf(f, -1):
+			return fmt.Sprintf("%s(math.Inf(-1))", val.Kind())
+		case math.IsNaN(f):
+			return fmt.Sprintf("%s(math.NaN())", val.Kind())
+		case f == 0: // also for -0
+			return "0"
+		default:
+			return fmt.Sprint(val.Interface())
+		}
 	case reflect.Slice:
 		els := make([]string, val.Len())
 		for i, l := 0, val.Len(); i < l; i++ {
-- 
2.43.0


From 56a49d85a87f30a92a3f813dc23e2ad0991c49dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:47 +0000
Subject: [PATCH 17/35] fix: import the packages of enum items and map values
 in Go

---
 templates/goshared/register.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index 72af0ed..ec21e10 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -333,12 +333,24 @@ func (fns goSharedFuncs) msgTyp(message pgs.Message) pgsgo.TypeName {
 	return pgsgo.TypeName(fns.Name(message))
 }
 
+// fieldEnum is the enum of the values, list items or map values of fld, or nil.
+func (fns goSharedFuncs) fieldEnum(fld pgs.Field) pgs.Enum {
+	switch typ := fld.Type(); {
+	case typ.IsEnum():
+		return typ.Enum()
+	case typ.IsRepeated() || typ.IsMap():
+		return typ.Element().Enum()
+	default:
+		return nil
+	}
+}
+
 func (fns goSharedFuncs) externalEnums(file pgs.File) []pgs.Enum {
 	var out []pgs.Enum
 
 	for _, msg := range file.AllMessages() {
 		for _, fld := range msg.Fields() {
-			if en := fld.Type().Enum(); fld.Type().IsEnum() && en.Package().ProtoName() != fld.Package().ProtoName() && fns.PackageName(en) != fns.PackageName(fld) {
+			if en := fns.fieldEnum(fld); en != nil && fns.ImportPath(en) != fns.ImportPath(fld) {
 				out = append(out, en)
 			}
 		}
-- 
2.43.0


From 343a5985113aecacfe8e7a05d2be20b6ca4f141f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:25 +0000
Subject: [PATCH 18/35] fix: import enum packages in Go under distinct names

---
 templates/go/file.go           |  2 +-
 templates/goshared/enum.go     |  2 +-
 templates/goshared/register.go | 29 +++++++++++++++++++++++++++--
 templates/goshared/repeated.go |  2 +-
 4 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/templates/go/file.go b/templates/go/file.go
index 10924be..07b746e 100644
--- a/templates/go/file.go
+++ b/templates/go/file.go
@@ -41,7 +41,7 @@ var (
 	_ = anypb.Any{}
 
 	{{ range (externalEnums .) }}
-		_ = {{ pkg . }}.{{ name . }}(0)
+		_ = {{ enumType $ . }}(0)
 	{{ end }}
 )
 
diff --git a/templates/goshared/enum.go b/templates/goshared/enum.go
index ffd6dc6..ded37f0 100644
--- a/templates/goshared/enum.go
+++ b/templates/goshared/enum.go
@@ -6,7 +6,7 @@ const enumTpl = `
 		{{ template "in" . }}
 
 		{{ if $r.GetDefinedOnly }}
-			if _, ok := {{ (typ $f).Element }}_name[int32({{ accessor . }})]; !ok {
+			if _, ok := {{ elemType $f }}_name[int32({{ accessor . }})]; !ok {
 				err := {{ err . "value must be one of the defined enum values" }}
 				if !all { return err }
 				errors = append(errors, err)
diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index ec21e10..945a342 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -27,6 +27,8 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 		"durGt":         fns.durGt,
 		"durLit":        fns.durLit,
 		"durStr":        fns.durStr,
+		"elemType":      fns.elemType,
+		"enumType":      fns.enumType,
 		"err":           fns.err,
 		"errCause":      fns.errCause,
 		"errIdx":        fns.errIdx,
@@ -239,7 +241,7 @@ func (fns goSharedFuncs) inType(ctx shared.RuleContext, x interface{}) string {
 	}
 
 	if ctx.Typ == "enum" {
-		return fns.Type(ctx.Field).Element().Value().String()
+		return fns.elemType(ctx.Field)
 	}
 
 	return pgsgo.TypeName(fmt.Sprintf("%T", x)).Element().String()
@@ -359,16 +361,39 @@ func (fns goSharedFuncs) externalEnums(file pgs.File) []pgs.Enum {
 	return out
 }
 
+// enumPackages are the names that the packages of enums are imported by: no two
+// are equal, and none is the name of another package or variable of the file.
 func (fns goSharedFuncs) enumPackages(enums []pgs.Enum) map[pgs.FilePath]pgs.Name {
 	out := make(map[pgs.FilePath]pgs.Name, len(enums))
 
 	for _, en := range enums {
-		out[fns.ImportPath(en)] = fns.PackageName(en)
+		path := fns.ImportPath(en)
+		if _, ok := out[path]; !ok {
+			out[path] = pgs.Name(fmt.Sprintf("%s_%d", fns.PackageName(en), len(out)))
+		}
 	}
 
 	return out
 }
 
+// enumType is the Go type of en in the file that f generates to.
+func (fns goSharedFuncs) enumType(f pgs.File, en pgs.Enum) string {
+	if pkg, ok := fns.enumPackages(fns.externalEnums(f))[fns.ImportPath(en)]; ok {
+		return fmt.Sprintf("%s.%s", pkg, fns.Name(en))
+	}
+
+	return fns.Name(en).String()
+}
+
+// elemType is the Go type of the list items of fld.
+func (fns goSharedFuncs) elemType(fld pgs.Field) string {
+	if en := fns.fieldEnum(fld); en != nil {
+		return fns.enumType(fld.File(), en)
+	}
+
+	return fns.Type(fld).Element().String()
+}
+
 func (fns goSharedFuncs) snakeCase(name string) string {
 	return strcase.ToSnake(name)
 }
diff --git a/templates/goshared/repeated.go b/templates/goshared/repeated.go
index d08fbf0..2914156 100644
--- a/templates/goshared/repeated.go
+++ b/templates/goshared/repeated.go
@@ -39,7 +39,7 @@ const repTpl = `
 		{{ lookup $ "Unique" }} := {{ if isBytes $f.Type.Element -}}
 			make(map[string]struct{}, len({{ accessor . }}))
 		{{ else -}}
-			make(map[{{ (typ $f).Element }}]struct{}, len({{ accessor . }}))
+			make(map[{{ elemType $f }}]struct{}, len({{ accessor . }}))
 		{{ end -}}
 	{{ end }}
 
-- 
2.43.0


From 7146f14886630c0a39d49c04774258c19d2b970e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:26 +0000
Subject: [PATCH 19/35] fix: sanitise the file name in the uuid pattern's Go
 identifier

---
 templates/goshared/register.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index 945a342..abddbae 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -6,6 +6,7 @@ import (
 	"reflect"
 	"strings"
 	"text/template"
+	"unicode"
 
 	"github.com/iancoleman/strcase"
 	"google.golang.org/protobuf/types/known/durationpb"
@@ -394,6 +395,13 @@ func (fns goSharedFuncs) elemType(fld pgs.Field) string {
 	return fns.Type(fld).Element().String()
 }
 
+// snakeCase is name in snake case, with an underscore for everything that no Go
+// identifier holds.
 func (fns goSharedFuncs) snakeCase(name string) string {
-	return strcase.ToSnake(name)
+	return strings.Map(func(r rune) rune {
+		if r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return '_'
+	}, strcase.ToSnake(name))
 }
-- 
2.43.0


From 3a38e6ad0f742b966a9092cedb3d7313b4e7dd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:50 +0000
Subject: [PATCH 20/35] fix: compare bytes fields with an empty constant in Go

---
 templates/goshared/bytes.go    | 2 +-
 templates/goshared/register.go | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/templates/goshared/bytes.go b/templates/goshared/bytes.go
index 517b4ba..5aef927 100644
--- a/templates/goshared/bytes.go
+++ b/templates/goshared/bytes.go
@@ -81,7 +81,7 @@ const bytesTpl = `
 		}
 	{{ end }}
 
-	{{ if $r.Const }}
+	{{ if isSet $r.Const }}
 		if !bytes.Equal({{ accessor . }}, {{ lit $r.Const }}) {
 			err := {{ err . "value must equal " $r.Const }}
 			if !all { return err }
diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index abddbae..905f76c 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -39,6 +39,7 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 		"inKeys":        fns.inKeys,
 		"inType":        fns.inType,
 		"isBytes":       fns.isBytes,
+		"isSet":         fns.isSet,
 		"lit":           fns.lit,
 		"lookup":        fns.lookup,
 		"msgTyp":        fns.msgTyp,
@@ -218,6 +219,11 @@ func (fns goSharedFuncs) isBytes(f interface {
 	return f.ProtoType() == pgs.BytesT
 }
 
+// isSet tells an unset bytes constant from an empty one.
+func (fns goSharedFuncs) isSet(x []byte) bool {
+	return x != nil
+}
+
 func (fns goSharedFuncs) byteStr(x []byte) string {
 	elms := make([]string, len(x))
 	for i, b := range x {
-- 
2.43.0


From 2598661c17e7c1a477c767a69ea5d3e71689b4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:25 +0000
Subject: [PATCH 21/35] fix: name Java outer classes of files as protoc does

---
 templates/java/register.go | 60 ++++++++++++++------------------------
 1 file changed, 22 insertions(+), 38 deletions(-)

diff --git a/templates/java/register.go b/templates/java/register.go
index 534785a..ad12645 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -172,12 +172,29 @@ func classNameMessage(m pgs.Message) string {
 	return className
 }
 
+// sanitizeClassName is the name protoc gives to the class of a file: letters in
+// camel case, in which everything else but digits is dropped.
 func sanitizeClassName(className string) string {
-	className = makeInvalidClassnameCharactersUnderscores(className)
-	className = underscoreBetweenConsecutiveUppercase(className)
-	className = strcase.ToCamel(strcase.ToSnake(className))
-	className = upperCaseAfterNumber(className)
-	return className
+	var sb strings.Builder
+	upper := true
+
+	for _, c := range className {
+		switch {
+		case c >= 'a' && c <= 'z' && upper:
+			sb.WriteRune(unicode.ToUpper(c))
+			upper = false
+		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z':
+			sb.WriteRune(c)
+			upper = false
+		case c >= '0' && c <= '9':
+			sb.WriteRune(c)
+			upper = true
+		default:
+			upper = true
+		}
+	}
+
+	return sb.String()
 }
 
 func javaPackage(file pgs.File) string {
@@ -218,24 +235,6 @@ func (fns javaFuncs) qualifiedName(entity pgs.Entity) string {
 	return entity.Name().String()
 }
 
-// Replace invalid identifier characters with an underscore
-func makeInvalidClassnameCharactersUnderscores(name string) string {
-	var sb string
-	for _, c := range name {
-		switch {
-		case c >= '0' && c <= '9':
-			sb += string(c)
-		case c >= 'a' && c <= 'z':
-			sb += string(c)
-		case c >= 'A' && c <= 'Z':
-			sb += string(c)
-		default:
-			sb += "_"
-		}
-	}
-	return sb
-}
-
 func upperCaseAfterNumber(name string) string {
 	var sb string
 	var p rune
@@ -251,21 +250,6 @@ func upperCaseAfterNumber(name string) string {
 	return sb
 }
 
-func underscoreBetweenConsecutiveUppercase(name string) string {
-	var sb string
-	var p rune
-
-	for _, c := range name {
-		if unicode.IsUpper(p) && unicode.IsUpper(c) {
-			sb += "_" + string(c)
-		} else {
-			sb += string(c)
-		}
-		p = c
-	}
-	return sb
-}
-
 func appendOuterClassName(outerClassName string, file pgs.File) string {
 	conflict := false
 
-- 
2.43.0


From 30e086cf68cea7d9ba8ae8f3cc68d9c2fb82cc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:26 +0000
Subject: [PATCH 22/35] fix: avoid nested names in Java outer class names, as
 protoc does

---
 templates/java/register.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/java/register.go b/templates/java/register.go
index ad12645..9c5f6e6 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -253,13 +253,13 @@ func upperCaseAfterNumber(name string) string {
 func appendOuterClassName(outerClassName string, file pgs.File) string {
 	conflict := false
 
-	for _, enum := range file.Enums() {
+	for _, enum := range file.AllEnums() {
 		if enum.Name().String() == outerClassName {
 			conflict = true
 		}
 	}
 
-	for _, message := range file.Messages() {
+	for _, message := range file.AllMessages() {
 		if message.Name().String() == outerClassName {
 			conflict = true
 		}
-- 
2.43.0


From 85f9f8984a58756eb81a890f3425a016a0a3e279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:37 +0000
Subject: [PATCH 23/35] fix: name Java validators of messages after their
 classes

With java_multiple_files the class of a message bears the message's name, and
the validator is looked up by that name, so it must not be changed.
---
 templates/java/file.go     |  2 +-
 templates/java/register.go | 12 +++---------
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/templates/java/file.go b/templates/java/file.go
index 567831c..18f0e4b 100644
--- a/templates/java/file.go
+++ b/templates/java/file.go
@@ -28,7 +28,7 @@ public class {{ classNameFile . }}Validator {
 @SuppressWarnings("all")
 public class {{ classNameMessage .}}Validator implements io.envoyproxy.pgv.ValidatorImpl<{{ qualifiedName . }}>{
 	public static io.envoyproxy.pgv.ValidatorImpl validatorFor(Class clazz) {
-		if (clazz.equals({{ qualifiedName . }}.class)) return new {{ simpleName .}}Validator();
+		if (clazz.equals({{ qualifiedName . }}.class)) return new {{ classNameMessage .}}Validator();
 		{{ range .AllMessages }}
 		{{ if not (ignored .) -}}
 		if (clazz.equals({{ qualifiedName . }}.class)) return new {{ simpleName .}}Validator();
diff --git a/templates/java/register.go b/templates/java/register.go
index 9c5f6e6..13fae19 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -161,15 +161,9 @@ func classNameFile(f pgs.File) string {
 }
 
 func classNameMessage(m pgs.Message) string {
-	className := m.Name().String()
-	// This is really silly, but when the multiple files option is true, protoc puts underscores in file names.
-	// When multiple files is false, underscores are stripped. Short of rewriting all the name sanitization
-	// logic for java, using "UnderscoreUnderscoreUnderscore" is an escape sequence seems to work with an extremely
-	// small likelihood of name conflict.
-	className = strings.Replace(className, "_", "UnderscoreUnderscoreUnderscore", -1)
-	className = sanitizeClassName(className)
-	className = strings.Replace(className, "UnderscoreUnderscoreUnderscore", "_", -1)
-	return className
+	// protoc names the class of a message after it when the multiple files
+	// option is true, and the validator is looked up by that name.
+	return m.Name().String()
 }
 
 // sanitizeClassName is the name protoc gives to the class of a file: letters in
-- 
2.43.0


From f5758a3361873527933d129244e64d11281db8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:55 +0000
Subject: [PATCH 24/35] fix: strip the module parameter from the start of
 output paths only

With module=foo every foo in the path of a generated file was removed, even
those in file names, so the file was not next to protoc-gen-go's.
---
 module/validate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/module/validate.go b/module/validate.go
index 1ca8510..24b660d 100644
--- a/module/validate.go
+++ b/module/validate.go
@@ -51,7 +51,7 @@ func (m *Module) Execute(targets map[string]pgs.File, pkgs map[string]pgs.Packag
 			// implementation-specific FilePathFor implementations.
 			// Ex: Don't generate Java validators for files that don't reference PGV.
 			if out != nil {
-				outPath := strings.TrimLeft(strings.ReplaceAll(out.String(), module, ""), "/")
+				outPath := strings.TrimLeft(strings.TrimPrefix(out.String(), module), "/")
 
 				if opts := f.Descriptor().GetOptions(); opts != nil && opts.GetJavaMultipleFiles() && lang == "java" {
 					// TODO: Only Java supports multiple file generation. If more languages add multiple file generation
-- 
2.43.0


From a1fafd12d8858adacac83307716aac4290eae63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:29 +0000
Subject: [PATCH 25/35] fix: scope the C++ comparison helpers of each unique
 field

---
 templates/cc/repeated.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/templates/cc/repeated.go b/templates/cc/repeated.go
index 53b2a35..2a6cc71 100644
--- a/templates/cc/repeated.go
+++ b/templates/cc/repeated.go
@@ -26,6 +26,7 @@ const repTpl = `
 	{{ end }}
 
 	{{ if $r.GetUnique }}
+	{
 	// Implement comparison for wrapped reference types
 	struct cmp {
 		bool operator() (const std::reference_wrapper<{{ $typ }}> lhs, const std::reference_wrapper<{{ $typ }}> rhs) const {
@@ -60,6 +61,9 @@ const repTpl = `
 			{{ render (.Elem "item" "i") }}
 		}
 	{{ end }}
+	{{ if $r.GetUnique }}
+	}
+	{{ end }}
 	{{ if $r.GetIgnoreEmpty }}
 		}
 	{{ end }}
-- 
2.43.0


From cff91930cf30f88ecb260718f41766a6fe2a755b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:29 +0000
Subject: [PATCH 26/35] fix: support in/not_in of wrapper fields in C++

---
 templates/cc/register.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/templates/cc/register.go b/templates/cc/register.go
index 615932c..99fa738 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -293,6 +293,10 @@ func (fns CCFuncs) inType(f pgs.Field, x interface{}) string {
 		case []*durationpb.Duration:
 			return "pgv::protobuf_wkt::Duration"
 		default:
+			if f.Type().IsEmbed() {
+				// wrapper: the table holds the wrapped values
+				return fns.inType(f.Type().Embed().Fields()[0], x)
+			}
 			return fns.className(f.Type().Element().Embed())
 		}
 	default:
-- 
2.43.0


From a4ed66d5a576b40915a3d45235b3706e6b548af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:29 +0000
Subject: [PATCH 27/35] fix: split C++ namespaces at the dots of the package
 only

---
 templates/cc/file.go     |  8 ++++----
 templates/cc/register.go | 19 +++++++++++++++++--
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/templates/cc/file.go b/templates/cc/file.go
index a85cf82..a02d691 100644
--- a/templates/cc/file.go
+++ b/templates/cc/file.go
@@ -34,7 +34,7 @@ pgv::Validator<{{ class . }}> {{ staticVarName . }}(static_cast<bool(*)(const {{
 } // namespace validate
 } // namespace pgv
 
-{{ range .Package.ProtoName.Split }}
+{{ range namespaces .File }}
 namespace {{ . }} {
 {{- end }}
 
@@ -42,7 +42,7 @@ namespace {{ . }} {
 	{{- template "msg" . }}
 {{ end }}
 
-{{ range .Package.ProtoName.Split -}}
+{{ range namespaces .File -}}
 } // namespace
 {{ end }}
 `
@@ -62,7 +62,7 @@ const headerFileTpl = `// Code generated by protoc-gen-validate
 #include "validate/validate.h"
 #include "{{ output .File ".h" }}"
 
-{{ range .Package.ProtoName.Split }}
+{{ range namespaces .File }}
 namespace {{ . }} {
 {{- end }}
 
@@ -72,7 +72,7 @@ using std::string;
 	{{- template "decl" . }}
 {{ end }}
 
-{{ range .Package.ProtoName.Split -}}
+{{ range namespaces .File -}}
 } // namespace
 {{ end }}
 
diff --git a/templates/cc/register.go b/templates/cc/register.go
index 99fa738..62517f3 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -37,6 +37,7 @@ func RegisterModule(tpl *template.Template, params pgs.Parameters) {
 		"isBytes":       fns.isBytes,
 		"lit":           fns.lit,
 		"lookup":        fns.lookup,
+		"namespaces":    fns.namespaces,
 		"oneof":         fns.oneofTypeName,
 		"output":        fns.output,
 		"package":       fns.packageName,
@@ -96,6 +97,7 @@ func RegisterHeader(tpl *template.Template, params pgs.Parameters) {
 
 	tpl.Funcs(map[string]interface{}{
 		"class":                fns.className,
+		"namespaces":           fns.namespaces,
 		"output":               fns.output,
 		"screaming_snake_case": strcase.ToScreamingSnake,
 	})
@@ -161,8 +163,21 @@ func (fns CCFuncs) className(ent childEntity) string {
 	return fns.packageName(ent) + "::" + fns.classBaseName(ent)
 }
 
-func (fns CCFuncs) packageName(msg pgs.Entity) string {
-	return "::" + strings.Join(msg.Package().ProtoName().Split(), "::")
+// packageName is the qualified namespace of an entity, empty for the global one.
+func (fns CCFuncs) packageName(ent pgs.Entity) string {
+	name := ""
+	for _, ns := range fns.namespaces(ent) {
+		name += "::" + ns
+	}
+	return name
+}
+
+func (fns CCFuncs) namespaces(ent pgs.Entity) []string {
+	name := ent.Package().ProtoName().String()
+	if name == "" {
+		return nil
+	}
+	return strings.Split(name, ".")
 }
 
 func (fns CCFuncs) quote(s interface {
-- 
2.43.0


From a8f93a80c7145dbb006c09c7c355b778e3a729ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:58 +0000
Subject: [PATCH 28/35] fix: print C++ numeric constants that denote the rule's
 value

---
 templates/cc/file.go     |  1 +
 templates/cc/ltgt.go     | 24 ++++++++++++------------
 templates/cc/register.go | 37 ++++++++++++++++++++++++++++++++++++-
 3 files changed, 49 insertions(+), 13 deletions(-)

diff --git a/templates/cc/file.go b/templates/cc/file.go
index a02d691..ad18102 100644
--- a/templates/cc/file.go
+++ b/templates/cc/file.go
@@ -54,6 +54,7 @@ const headerFileTpl = `// Code generated by protoc-gen-validate
 #pragma once
 
 #include <algorithm>
+#include <limits>
 #include <string>
 #include <sstream>
 #include <unordered_set>
diff --git a/templates/cc/ltgt.go b/templates/cc/ltgt.go
index f296d93..9f31025 100644
--- a/templates/cc/ltgt.go
+++ b/templates/cc/ltgt.go
@@ -4,61 +4,61 @@ const ltgtTpl = `{{ $f := .Field }}{{ $r := .Rules }}{{ $v := (accessor .) }}
 	{{ if $r.Lt }}
 		{{ if $r.Gt }}
 			{{  if gt $r.GetLt $r.GetGt }}
-				if ({{ $v }} <= {{ $r.Gt }} || {{ $v }} >= {{ $r.Lt }}) {
+				if ({{ $v }} <= {{ lit $r.GetGt }} || {{ $v }} >= {{ lit $r.GetLt }}) {
 					{{ err . "value must be inside range (" $r.GetGt ", " $r.GetLt ")" }}
 				}
 			{{ else }}
-				if ({{ $v }} >= {{ $r.Lt }} && {{ $v }} <= {{ $r.Gt }}) {
+				if ({{ $v }} >= {{ lit $r.GetLt }} && {{ $v }} <= {{ lit $r.GetGt }}) {
 					{{ err . "value must be outside range [" $r.GetLt ", " $r.GetGt "]" }}
 				}
 			{{ end }}
 		{{ else if $r.Gte }}
 			{{  if gt $r.GetLt $r.GetGte }}
-				if ({{ $v }} < {{ $r.Gte }} || {{ $v }} >= {{ $r.Lt }}) {
+				if ({{ $v }} < {{ lit $r.GetGte }} || {{ $v }} >= {{ lit $r.GetLt }}) {
 					{{ err . "value must be inside range [" $r.GetGte ", " $r.GetLt ")" }}
 				}
 			{{ else }}
-				if ({{ $v }} >= {{ $r.Lt }} && {{ $v }} < {{ $r.Gte }}) {
+				if ({{ $v }} >= {{ lit $r.GetLt }} && {{ $v }} < {{ lit $r.GetGte }}) {
 					{{ err . "value must be outside range [" $r.GetLt ", " $r.GetGte ")" }}
 				}
 			{{ end }}
 		{{ else }}
-			if ({{ accessor . }} >= {{ $r.Lt }}) {
+			if ({{ accessor . }} >= {{ lit $r.GetLt }}) {
 				{{ err . "value must be less than " $r.GetLt }}
 			}
 		{{ end }}
 	{{ else if $r.Lte }}
 		{{ if $r.Gt }}
 			{{  if gt $r.GetLte $r.GetGt }}
-				if ({{ $v }} <= {{ $r.Gt }} || {{ $v }} > {{ $r.Lte }}) {
+				if ({{ $v }} <= {{ lit $r.GetGt }} || {{ $v }} > {{ lit $r.GetLte }}) {
 					{{ err . "value must be inside range (" $r.GetGt ", " $r.GetLte "]" }}
 				}
 			{{ else }}
-				if ({{ $v }} > {{ $r.Lte }} && {{ $v }} <= {{ $r.Gt }}) {
+				if ({{ $v }} > {{ lit $r.GetLte }} && {{ $v }} <= {{ lit $r.GetGt }}) {
 					{{ err . "value must be outside range (" $r.GetLte ", " $r.GetGt "]" }}
 				}
 			{{ end }}
 		{{ else if $r.Gte }}
 			{{ if gt $r.GetLte $r.GetGte }}
-				if ({{ $v }} < {{ $r.Gte }} || {{ $v }} > {{ $r.Lte }}) {
+				if ({{ $v }} < {{ lit $r.GetGte }} || {{ $v }} > {{ lit $r.GetLte }}) {
 					{{ err . "value must be inside range [" $r.GetGte ", " $r.GetLte "]" }}
 				}
 			{{ else }}
-				if ({{ $v }} > {{ $r.Lte }} && {{ $v }} < {{ $r.Gte }}) {
+				if ({{ $v }} > {{ lit $r.GetLte }} && {{ $v }} < {{ lit $r.GetGte }}) {
 					{{ err . "value must be outside range (" $r.GetLte ", " $r.GetGte ")" }}
 				}
 			{{ end }}
 		{{ else }}
-			if ({{ accessor . }} > {{ $r.Lte }}) {
+			if ({{ accessor . }} > {{ lit $r.GetLte }}) {
 				{{ err . "value must be less than or equal to " $r.GetLte }}
 			}
 		{{ end }}
 	{{ else if $r.Gt }}
-		if ({{ accessor . }} <= {{ $r.Gt }}) {
+		if ({{ accessor . }} <= {{ lit $r.GetGt }}) {
 			{{ err . "value must be greater than " $r.GetGt }}
 		}
 	{{ else if $r.Gte }}
-		if ({{ accessor . }} < {{ $r.Gte }}) {
+		if ({{ accessor . }} < {{ lit $r.GetGte }}) {
 			{{ err . "value must be greater than or equal to " $r.GetGte }}
 		}
 	{{ end }}
diff --git a/templates/cc/register.go b/templates/cc/register.go
index 62517f3..d29e5ac 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -2,6 +2,7 @@ package cc
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -269,12 +270,46 @@ func (fns CCFuncs) lit(x interface{}) string {
 			panic(fmt.Sprintf("don't know how to format literals of type %v", val.Kind()))
 		}
 	case reflect.Float32:
-		return fmt.Sprintf("%fF", x)
+		return floatLit(val.Float(), 32)
+	case reflect.Float64:
+		return floatLit(val.Float(), 64)
+	case reflect.Int64:
+		if val.Int() == math.MinInt64 {
+			// the magnitude of the literal has no signed type in C++
+			return fmt.Sprintf("(%d - 1)", val.Int()+1)
+		}
+		return fmt.Sprint(val.Int())
+	case reflect.Uint64:
+		if val.Uint() > math.MaxInt64 {
+			return fmt.Sprintf("%dU", val.Uint())
+		}
+		return fmt.Sprint(val.Uint())
 	default:
 		return fmt.Sprint(x)
 	}
 }
 
+// floatLit is the shortest decimal constant that denotes the value exactly.
+func floatLit(v float64, bits int) string {
+	typ := map[int]string{32: "float", 64: "double"}[bits]
+	switch {
+	case math.IsNaN(v):
+		return fmt.Sprintf("std::numeric_limits<%s>::quiet_NaN()", typ)
+	case math.IsInf(v, 1):
+		return fmt.Sprintf("std::numeric_limits<%s>::infinity()", typ)
+	case math.IsInf(v, -1):
+		return fmt.Sprintf("-std::numeric_limits<%s>::infinity()", typ)
+	}
+	s := strconv.FormatFloat(v, 'g', -1, bits)
+	if !strings.ContainsAny(s, ".e") {
+		s += ".0"
+	}
+	if bits == 32 {
+		s += "F"
+	}
+	return s
+}
+
 func (fns CCFuncs) isBytes(f interface {
 	ProtoType() pgs.ProtoType
 }) bool {
-- 
2.43.0


From bdf2202a5fcbd2c2b501f82038680bd1c49ca759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:48 +0000
Subject: [PATCH 29/35] fix: write string and bytes constants as C++ literals
 of the same bytes

---
 templates/cc/bytes.go    |  6 ++--
 templates/cc/const.go    |  2 +-
 templates/cc/register.go | 68 +++++++++++++++++++++++++++++++++-------
 templates/cc/string.go   |  8 ++---
 4 files changed, 64 insertions(+), 20 deletions(-)

diff --git a/templates/cc/bytes.go b/templates/cc/bytes.go
index 9bae2c8..cdbf80e 100644
--- a/templates/cc/bytes.go
+++ b/templates/cc/bytes.go
@@ -42,7 +42,7 @@ const bytesTpl = `
 
 	{{ if $r.Prefix }}
 	{
-		const std::string prefix = {{ lit $r.GetPrefix }};
+		const std::string prefix = {{ strVal $r.GetPrefix }};
 		if (!pgv::IsPrefix(prefix, {{ accessor . }})) {
 			{{ err . "value does not have prefix " (lit $r.GetPrefix) }}
 		}
@@ -51,7 +51,7 @@ const bytesTpl = `
 
 	{{ if $r.Suffix }}
 	{
-		const std::string suffix = {{ lit $r.GetSuffix }};
+		const std::string suffix = {{ strVal $r.GetSuffix }};
 		if (!pgv::IsSuffix(suffix, {{ accessor .}})) {
 			{{ err . "value does not have suffix " (lit $r.GetSuffix) }}
 		}
@@ -60,7 +60,7 @@ const bytesTpl = `
 
 	{{ if $r.Contains }}
 	{
-		if (!pgv::Contains({{ accessor . }}, {{ lit $r.GetContains }})) {
+		if (!pgv::Contains({{ accessor . }}, {{ strVal $r.GetContains }})) {
 			{{ err . "value does not contain substring " (lit $r.GetContains) }}
 		}
 	}
diff --git a/templates/cc/const.go b/templates/cc/const.go
index 2d6af9e..f942386 100644
--- a/templates/cc/const.go
+++ b/templates/cc/const.go
@@ -2,7 +2,7 @@ package cc
 
 const constTpl = `{{ $r := .Rules }}
 	{{ if $r.Const }}
-		if ({{ accessor . }} != {{ lit $r.GetConst }}) {
+		if ({{ accessor . }} != {{ strVal $r.GetConst }}) {
 			{{ err . "value must equal " (lit $r.GetConst) }}
 		}
 	{{ end }}
diff --git a/templates/cc/register.go b/templates/cc/register.go
index d29e5ac..2f86b24 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -1,12 +1,15 @@
 package cc
 
 import (
+	"bytes"
 	"fmt"
 	"math"
 	"reflect"
 	"strconv"
 	"strings"
 	"text/template"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/envoyproxy/protoc-gen-validate/templates/shared"
 	"github.com/iancoleman/strcase"
@@ -44,6 +47,7 @@ func RegisterModule(tpl *template.Template, params pgs.Parameters) {
 		"package":       fns.packageName,
 		"quote":         fns.quote,
 		"staticVarName": fns.staticVarName,
+		"strVal":        fns.strVal,
 		"tsGt":          fns.tsGt,
 		"tsLit":         fns.tsLit,
 		"tsStr":         fns.tsStr,
@@ -221,7 +225,7 @@ func (fns CCFuncs) errIdxCause(ctx shared.RuleContext, idx, cause string, reason
 		output = append(output, fmt.Sprintf(`msg << "[" << %s << "]";`, ctx.Index))
 	}
 
-	output = append(output, fmt.Sprintf(`msg << ": " << %q;`, fmt.Sprint(reason...)))
+	output = append(output, fmt.Sprintf(`msg << ": " << %s;`, fns.lit(fmt.Sprint(reason...))))
 
 	if cause != "nil" && cause != "" {
 		output = append(output, fmt.Sprintf(`msg << " | caused by " << %s;`, cause))
@@ -255,17 +259,13 @@ func (fns CCFuncs) lit(x interface{}) string {
 
 	switch val.Kind() {
 	case reflect.String:
-		return fmt.Sprintf("%q", x)
+		return strLit(val.String())
 	case reflect.Uint8:
 		return fmt.Sprintf("%d", x)
 	case reflect.Slice:
-		els := make([]string, val.Len())
 		switch reflect.TypeOf(x).Elem().Kind() {
 		case reflect.Uint8:
-			for i, l := 0, val.Len(); i < l; i++ {
-				els[i] = fmt.Sprintf("\\x%x", val.Index(i).Interface())
-			}
-			return fmt.Sprintf("\"%s\"", strings.Join(els, ""))
+			return fns.byteStr(val.Bytes())
 		default:
 			panic(fmt.Sprintf("don't know how to format literals of type %v", val.Kind()))
 		}
@@ -289,6 +289,52 @@ func (fns CCFuncs) lit(x interface{}) string {
 	}
 }
 
+// strLit is a C++ string literal: escapes are octal, since a hexadecimal one
+// takes in the digits that follow it.
+func strLit(s string) string {
+	var b strings.Builder
+	b.WriteByte('"')
+	for i, r := range s {
+		_, width := utf8.DecodeRuneInString(s[i:])
+		switch {
+		case r == '"' || r == '\\':
+			b.WriteByte('\\')
+			b.WriteRune(r)
+		case r == '\n':
+			b.WriteString(`\n`)
+		case r == '\t':
+			b.WriteString(`\t`)
+		case r == '\r':
+			b.WriteString(`\r`)
+		case r == '?' && i > 0 && s[i-1] == '?':
+			b.WriteString(`\?`) // no trigraph
+		case r == utf8.RuneError || !unicode.IsPrint(r):
+			for _, c := range []byte(s[i : i+width]) {
+				fmt.Fprintf(&b, `\%03o`, c)
+			}
+		default:
+			b.WriteRune(r)
+		}
+	}
+	b.WriteByte('"')
+	return b.String()
+}
+
+// strVal is the value of a string or bytes constant, NULs included.
+func (fns CCFuncs) strVal(x interface{}) string {
+	n, nul := 0, false
+	switch s := reflect.Indirect(reflect.ValueOf(x)).Interface().(type) {
+	case string:
+		n, nul = len(s), strings.ContainsRune(s, 0)
+	case []byte:
+		n, nul = len(s), bytes.IndexByte(s, 0) >= 0
+	}
+	if nul {
+		return fmt.Sprintf("std::string(%s, %d)", fns.lit(x), n)
+	}
+	return fns.lit(x)
+}
+
 // floatLit is the shortest decimal constant that denotes the value exactly.
 func floatLit(v float64, bits int) string {
 	typ := map[int]string{32: "float", 64: "double"}[bits]
@@ -319,7 +365,7 @@ func (fns CCFuncs) isBytes(f interface {
 func (fns CCFuncs) byteStr(x []byte) string {
 	elms := make([]string, len(x))
 	for i, b := range x {
-		elms[i] = fmt.Sprintf(`\x%X`, b)
+		elms[i] = fmt.Sprintf(`\%03o`, b)
 	}
 
 	return fmt.Sprintf(`"%s"`, strings.Join(elms, ""))
@@ -398,19 +444,17 @@ func (fns CCFuncs) cTypeOfString(s string) string {
 
 func (fns CCFuncs) inKey(f pgs.Field, x interface{}) string {
 	switch f.Type().ProtoType() {
-	case pgs.BytesT:
-		return fns.byteStr(x.([]byte))
 	case pgs.MessageT:
 		switch x := x.(type) {
 		case *durationpb.Duration:
 			return fns.durLit(x)
 		default:
-			return fns.lit(x)
+			return fns.strVal(x)
 		}
 	case pgs.EnumT:
 		return fmt.Sprintf("%s(%d)", fns.cType(f.Type()), x.(int32))
 	default:
-		return fns.lit(x)
+		return fns.strVal(x)
 	}
 }
 
diff --git a/templates/cc/string.go b/templates/cc/string.go
index 112966c..58e7291 100644
--- a/templates/cc/string.go
+++ b/templates/cc/string.go
@@ -76,7 +76,7 @@ const strTpl = `
 
 	{{ if $r.Prefix }}
 	{
-		const std::string prefix = {{ lit $r.GetPrefix }};
+		const std::string prefix = {{ strVal $r.GetPrefix }};
 		if (!pgv::IsPrefix(prefix, {{ accessor . }})) {
 			{{ err . "value does not have prefix " (lit $r.GetPrefix) }}
 		}
@@ -85,7 +85,7 @@ const strTpl = `
 
 	{{ if $r.Suffix }}
 	{
-		const std::string suffix = {{ lit $r.GetSuffix }};
+		const std::string suffix = {{ strVal $r.GetSuffix }};
 		const std::string& value = {{ accessor . }};
 		if (!pgv::IsSuffix(suffix, value)) {
 			{{ err . "value does not have suffix " (lit $r.GetSuffix) }}
@@ -95,7 +95,7 @@ const strTpl = `
 
 	{{ if $r.Contains }}
 	{
-		if (!pgv::Contains({{ accessor . }}, {{ lit $r.GetContains }})) {
+		if (!pgv::Contains({{ accessor . }}, {{ strVal $r.GetContains }})) {
 			{{ err . "value does not contain substring " (lit $r.GetContains) }}
 		}
 	}
@@ -103,7 +103,7 @@ const strTpl = `
 
 	{{ if $r.NotContains }}
 	{
-		if (pgv::Contains({{ accessor . }}, {{ lit $r.GetNotContains }})) {
+		if (pgv::Contains({{ accessor . }}, {{ strVal $r.GetNotContains }})) {
 			{{ err . "value contains substring " (lit $r.GetNotContains) }}
 		}
 	}
-- 
2.43.0


From 882800d8dcb08ba0beb88738629d8fb07b543e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:49 +0000
Subject: [PATCH 30/35] fix: C++ IP address checks look at the whole string

---
 validate/validate.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/validate/validate.h b/validate/validate.h
index b859497..00921c5 100644
--- a/validate/validate.h
+++ b/validate/validate.h
@@ -96,12 +96,13 @@ static inline bool NotContains(const string& search_in, const string& to_find)
 
 static inline bool IsIpv4(const string& to_validate) {
 	struct sockaddr_in sa;
-	return !(inet_pton(AF_INET, to_validate.c_str(), &sa.sin_addr) < 1);
+	// inet_pton sees the string up to the first NUL only
+	return to_validate.find('\0') == string::npos && !(inet_pton(AF_INET, to_validate.c_str(), &sa.sin_addr) < 1);
 }
 
 static inline bool IsIpv6(const string& to_validate) {
   struct sockaddr_in6 sa_six;
-	return !(inet_pton(AF_INET6, to_validate.c_str(), &sa_six.sin6_addr) < 1);
+	return to_validate.find('\0') == string::npos && !(inet_pton(AF_INET6, to_validate.c_str(), &sa_six.sin6_addr) < 1);
 }
 
 static inline bool IsIp(const string& to_validate) {
-- 
2.43.0


From 1cdc7ec9848a5b2cf79b6ffb22b6e260cc9c9d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:51 +0000
Subject: [PATCH 31/35] fix: reject durations of mixed signs in C++

---
 templates/cc/duration.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/templates/cc/duration.go b/templates/cc/duration.go
index 16f086f..be68c73 100644
--- a/templates/cc/duration.go
+++ b/templates/cc/duration.go
@@ -9,6 +9,7 @@ const durationTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 			const pgv::protobuf_wkt::Duration& dur = {{ accessor . }};
 
 			if (dur.nanos() > 999999999 || dur.nanos() < -999999999 ||
+			    (dur.seconds() > 0 && dur.nanos() < 0) || (dur.seconds() < 0 && dur.nanos() > 0) ||
 			    dur.seconds() > pgv::protobuf::util::TimeUtil::kDurationMaxSeconds ||
 			    dur.seconds() < pgv::protobuf::util::TimeUtil::kDurationMinSeconds)
 				{{ errCause . "err" "value is not a valid duration" }}
-- 
2.43.0


From f215ee046d06f6269748ca8272d646fbef5c2cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:52 +0000
Subject: [PATCH 32/35] fix: name C++ lookup tables after the whole class name

---
 templates/cc/register.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/cc/register.go b/templates/cc/register.go
index 2f86b24..3001fdf 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -240,7 +240,7 @@ func (fns CCFuncs) errIdxCause(ctx shared.RuleContext, idx, cause string, reason
 func (fns CCFuncs) lookup(f pgs.Field, name string) string {
 	return fmt.Sprintf(
 		"_%s_%s_%s",
-		pgsgo.PGGUpperCamelCase(f.Message().Name()),
+		fns.classBaseName(f.Message()),
 		pgsgo.PGGUpperCamelCase(f.Name()),
 		name,
 	)
-- 
2.43.0


From e632d2cef9310136cf839d19d181a91adfa61d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:14 +0000
Subject: [PATCH 33/35] fix: look up floating point values by equality in C++

---
 templates/cc/msg.go      |  4 ++--
 templates/cc/register.go | 11 +++++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/templates/cc/msg.go b/templates/cc/msg.go
index a54450e..01590a7 100644
--- a/templates/cc/msg.go
+++ b/templates/cc/msg.go
@@ -16,7 +16,7 @@ const msgTpl = `
 
 {{ range .Fields }}{{ with (context .) }}{{ $f := .Field }}
 	{{ if has .Rules "In" }}{{ if .Rules.In }}
-	const std::set<{{ inType .Field .Rules.In }}> {{ lookup .Field "InLookup" }} = {
+	const {{ setType .Field .Rules.In }} {{ lookup .Field "InLookup" }} = {
 			{{- range .Rules.In }}
 				{{ inKey $f . }},
 			{{- end }}
@@ -24,7 +24,7 @@ const msgTpl = `
 	{{ end }}{{ end }}
 
 	{{ if has .Rules "NotIn" }}{{ if .Rules.NotIn }}
-	const std::set<{{ inType .Field .Rules.NotIn }}> {{ lookup .Field "NotInLookup" }} = {
+	const {{ setType .Field .Rules.NotIn }} {{ lookup .Field "NotInLookup" }} = {
 			{{- range .Rules.NotIn }}
 				{{ inKey $f . }},
 			{{- end }}
diff --git a/templates/cc/register.go b/templates/cc/register.go
index 3001fdf..c6be4d0 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -46,6 +46,7 @@ func RegisterModule(tpl *template.Template, params pgs.Parameters) {
 		"output":        fns.output,
 		"package":       fns.packageName,
 		"quote":         fns.quote,
+		"setType":       fns.setType,
 		"staticVarName": fns.staticVarName,
 		"strVal":        fns.strVal,
 		"tsGt":          fns.tsGt,
@@ -400,6 +401,16 @@ func (fns CCFuncs) inType(f pgs.Field, x interface{}) string {
 	}
 }
 
+// setType is the type of a lookup table. A NaN has no place in the order a
+// std::set relies on, so tables of floating point values compare by equality.
+func (fns CCFuncs) setType(f pgs.Field, x interface{}) string {
+	typ := fns.inType(f, x)
+	if typ == "float" || typ == "double" {
+		return fmt.Sprintf("std::unordered_set<%s>", typ)
+	}
+	return fmt.Sprintf("std::set<%s>", typ)
+}
+
 func (fns CCFuncs) cType(t pgs.FieldType) string {
 	if t.IsEmbed() {
 		return fns.className(t.Embed())
-- 
2.43.0


From 71adf2a1db5f55dcffb7413586229279775335d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:16 +0000
Subject: [PATCH 34/35] fix: name C++ accessors as protoc does

---
 templates/cc/register.go | 99 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 91 insertions(+), 8 deletions(-)

diff --git a/templates/cc/register.go b/templates/cc/register.go
index c6be4d0..e046a96 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -121,16 +121,99 @@ func CcFilePath(f pgs.File, ctx pgsgo.Context, tpl *template.Template) *pgs.File
 	return &out
 }
 
+// ccKeywords are the field names protoc does not use for accessors as they are.
+var ccKeywords = map[string]bool{
+	"alignas":          true,
+	"alignof":          true,
+	"and":              true,
+	"and_eq":           true,
+	"asm":              true,
+	"auto":             true,
+	"bitand":           true,
+	"bitor":            true,
+	"bool":             true,
+	"break":            true,
+	"case":             true,
+	"catch":            true,
+	"char":             true,
+	"class":            true,
+	"compl":            true,
+	"const":            true,
+	"constexpr":        true,
+	"const_cast":       true,
+	"continue":         true,
+	"decltype":         true,
+	"default":          true,
+	"delete":           true,
+	"do":               true,
+	"double":           true,
+	"dynamic_cast":     true,
+	"else":             true,
+	"enum":             true,
+	"explicit":         true,
+	"export":           true,
+	"extern":           true,
+	"false":            true,
+	"float":            true,
+	"for":              true,
+	"friend":           true,
+	"goto":             true,
+	"if":               true,
+	"inline":           true,
+	"int":              true,
+	"long":             true,
+	"mutable":          true,
+	"namespace":        true,
+	"new":              true,
+	"noexcept":         true,
+	"not":              true,
+	"not_eq":           true,
+	"nullptr":          true,
+	"operator":         true,
+	"or":               true,
+	"or_eq":            true,
+	"private":          true,
+	"protected":        true,
+	"public":           true,
+	"register":         true,
+	"reinterpret_cast": true,
+	"return":           true,
+	"short":            true,
+	"signed":           true,
+	"sizeof":           true,
+	"static":           true,
+	"static_assert":    true,
+	"static_cast":      true,
+	"struct":           true,
+	"switch":           true,
+	"template":         true,
+	"this":             true,
+	"thread_local":     true,
+	"throw":            true,
+	"true":             true,
+	"try":              true,
+	"typedef":          true,
+	"typeid":           true,
+	"typename":         true,
+	"union":            true,
+	"unsigned":         true,
+	"using":            true,
+	"virtual":          true,
+	"void":             true,
+	"volatile":         true,
+	"wchar_t":          true,
+	"while":            true,
+	"xor":              true,
+	"xor_eq":           true,
+}
+
 func (fns CCFuncs) methodName(name interface{}) string {
-	nameStr := fmt.Sprintf("%s", name)
-	switch nameStr {
-	case "const":
-		return "const_"
-	case "inline":
-		return "inline_"
-	default:
-		return nameStr
+	// protoc lower-cases accessors, and sets them off from keywords
+	nameStr := strings.ToLower(fmt.Sprintf("%s", name))
+	if ccKeywords[nameStr] {
+		return nameStr + "_"
 	}
+	return nameStr
 }
 
 func (fns CCFuncs) accessor(ctx shared.RuleContext) string {
-- 
2.43.0


From 330b0de50566e40b058df3bb85a1fdb3c032e979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:20 +0000
Subject: [PATCH 35/35] fix: compare bytes fields with an empty constant in C++

---
 templates/cc/const.go    | 2 +-
 templates/cc/register.go | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/templates/cc/const.go b/templates/cc/const.go
index f942386..a507df8 100644
--- a/templates/cc/const.go
+++ b/templates/cc/const.go
@@ -1,7 +1,7 @@
 package cc
 
 const constTpl = `{{ $r := .Rules }}
-	{{ if $r.Const }}
+	{{ if isSet $r.Const }}
 		if ({{ accessor . }} != {{ strVal $r.GetConst }}) {
 			{{ err . "value must equal " (lit $r.GetConst) }}
 		}
diff --git a/templates/cc/register.go b/templates/cc/register.go
index e046a96..30716eb 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -39,6 +39,7 @@ func RegisterModule(tpl *template.Template, params pgs.Parameters) {
 		"inKey":         fns.inKey,
 		"inType":        fns.inType,
 		"isBytes":       fns.isBytes,
+		"isSet":         fns.isSet,
 		"lit":           fns.lit,
 		"lookup":        fns.lookup,
 		"namespaces":    fns.namespaces,
@@ -446,6 +447,11 @@ func (fns CCFuncs) isBytes(f interface {
 	return f.ProtoType() == pgs.BytesT
 }
 
+// isSet tells an unset constant from an empty one: those of bytes are slices.
+func (fns CCFuncs) isSet(x interface{}) bool {
+	return !reflect.ValueOf(x).IsNil()
+}
+
 func (fns CCFuncs) byteStr(x []byte) string {
 	elms := make([]string, len(x))
 	for i, b := range x {
-- 
2.43.0

