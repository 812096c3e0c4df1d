From 7c564916bda97e960815f77c6f91c16671ecead9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 1/9] fix: accept RFC 2141 identifiers of three characters
 beginning with u

The look-ahead guarding the reserved "urn" identifier only checked for a
colon three characters after an u: urn:uci:x, urn:uid:x, but also urn:u:a:b
were refused.
---
 machine.go    | 4 +++-
 machine.go.rl | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/machine.go b/machine.go
index aec1ba6..7c27a19 100644
--- a/machine.go
+++ b/machine.go
@@ -2,6 +2,7 @@ package urn
 
 import (
 	"fmt"
+	"strings"
 
 	scimschema "github.com/leodido/go-urn/scim/schema"
 )
@@ -4359,8 +4360,9 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		if m.parsingMode != RFC8141Only {
 			// Throw an error when:
 			// - we are entering here matching the the prefix in the namespace identifier part
+			// - the namespace identifier is exactly the prefix (whatever case)
 			// - looking ahead (3 chars) we find a colon
-			if pos := m.p + 3; pos < m.pe && m.data[pos] == 58 && output.prefix != "" {
+			if pos := m.p + 3; pos < m.pe && m.data[pos] == 58 && output.prefix != "" && strings.EqualFold(string(m.data[m.p:pos]), "urn") {
 				m.err = fmt.Errorf(errNoUrnWithinID, pos)
 				(m.p)--
 
diff --git a/machine.go.rl b/machine.go.rl
index 0a17421..f5a33a3 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -2,6 +2,7 @@ package urn
 
 import (
     "fmt"
+    "strings"
 
     scimschema "github.com/leodido/go-urn/scim/schema"
 )
@@ -49,8 +50,9 @@ action throw_pre_urn_err {
     if m.parsingMode != RFC8141Only {
         // Throw an error when:
         // - we are entering here matching the the prefix in the namespace identifier part
+        // - the namespace identifier is exactly the prefix (whatever case)
         // - looking ahead (3 chars) we find a colon
-        if pos := m.p + 3; pos < m.pe && m.data[pos] == 58 && output.prefix != "" {
+        if pos := m.p + 3; pos < m.pe && m.data[pos] == 58 && output.prefix != "" && strings.EqualFold(string(m.data[m.p:pos]), "urn") {
             m.err = fmt.Errorf(errNoUrnWithinID, pos)
             fhold;
             fgoto fail;
-- 
2.43.0


From 6053fd3a7fb34de140e989a48cc384497e222d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 2/9] fix: do not write the input while parsing

The percent-encoded letters were lowercased in place in the caller's slice,
copied, and then reverted: parsing one buffer from two goroutines, or a
read-only one, was unsafe. Lower a copy instead.
---
 machine.go    | 65 ++++++++++++++++-----------------------------------
 machine.go.rl | 21 ++++++++++-------
 2 files changed, 32 insertions(+), 54 deletions(-)

diff --git a/machine.go b/machine.go
index 7c27a19..3a019d6 100644
--- a/machine.go
+++ b/machine.go
@@ -135,6 +135,16 @@ func (m *machine) text() []byte {
 	return m.data[m.pb:m.p]
 }
 
+// lowerAt returns a copy of s where the upper letters at the given positions are lowercased.
+func lowerAt(s string, positions []int) string {
+	b := []byte(s)
+	for _, i := range positions {
+		b[i] = b[i] + 32
+	}
+
+	return string(b)
+}
+
 // Parse parses the input byte array as a RFC 2141 or RFC7643 string.
 func (m *machine) Parse(input []byte) (*URN, error) {
 	m.data = input
@@ -4171,15 +4181,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	f38:
 
 		output.SS = string(m.text())
-		// Iterate upper letters lowering them
-		for _, i := range output.tolower {
-			m.data[m.pb+i] = m.data[m.pb+i] + 32
-		}
-		output.norm = string(m.text())
-		// Revert the buffer to the original
-		for _, i := range output.tolower {
-			m.data[m.pb+i] = m.data[m.pb+i] - 32
-		}
+		// Lower the upper letters of the hex tokens
+		output.norm = lowerAt(output.SS, output.tolower)
 
 		goto _again
 	f0:
@@ -4747,30 +4750,16 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			case 34:
 
 				output.SS = string(m.text())
-				// Iterate upper letters lowering them
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] + 32
-				}
-				output.norm = string(m.text())
-				// Revert the buffer to the original
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] - 32
-				}
+				// Lower the upper letters of the hex tokens
+				output.norm = lowerAt(output.SS, output.tolower)
 
 				output.kind = RFC2141
 
 			case 38:
 
 				output.SS = string(m.text())
-				// Iterate upper letters lowering them
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] + 32
-				}
-				output.norm = string(m.text())
-				// Revert the buffer to the original
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] - 32
-				}
+				// Lower the upper letters of the hex tokens
+				output.norm = lowerAt(output.SS, output.tolower)
 
 				output.kind = RFC8141
 
@@ -4959,15 +4948,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				output.scim.Name = string(m.data[output.scim.pos:m.p])
 
 				output.SS = string(m.text())
-				// Iterate upper letters lowering them
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] + 32
-				}
-				output.norm = string(m.text())
-				// Revert the buffer to the original
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] - 32
-				}
+				// Lower the upper letters of the hex tokens
+				output.norm = lowerAt(output.SS, output.tolower)
 
 				output.kind = RFC7643
 
@@ -4976,15 +4958,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				output.scim.Other = string(m.data[output.scim.pos:m.p])
 
 				output.SS = string(m.text())
-				// Iterate upper letters lowering them
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] + 32
-				}
-				output.norm = string(m.text())
-				// Revert the buffer to the original
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] - 32
-				}
+				// Lower the upper letters of the hex tokens
+				output.norm = lowerAt(output.SS, output.tolower)
 
 				output.kind = RFC7643
 
diff --git a/machine.go.rl b/machine.go.rl
index f5a33a3..f606e2c 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -66,15 +66,8 @@ action set_nid {
 
 action set_nss {
     output.SS = string(m.text())
-    // Iterate upper letters lowering them
-    for _, i := range output.tolower {
-        m.data[m.pb+i] = m.data[m.pb+i] + 32
-    }
-    output.norm = string(m.text())
-    // Revert the buffer to the original
-    for _, i := range output.tolower {
-        m.data[m.pb+i] = m.data[m.pb+i] - 32
-    }
+    // Lower the upper letters of the hex tokens
+    output.norm = lowerAt(output.SS, output.tolower)
 }
 
 action err_pre {
@@ -352,6 +345,16 @@ func (m *machine) text() []byte {
     return m.data[m.pb:m.p]
 }
 
+// lowerAt returns a copy of s where the upper letters at the given positions are lowercased.
+func lowerAt(s string, positions []int) string {
+    b := []byte(s)
+    for _, i := range positions {
+        b[i] = b[i] + 32
+    }
+
+    return string(b)
+}
+
 // Parse parses the input byte array as a RFC 2141 or RFC7643 string.
 func (m *machine) Parse(input []byte) (*URN, error) {
     m.data = input
-- 
2.43.0


From 50eb586bcab793ee6493bafae74900ba206475c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 3/9] fix: always return an error for a refused input

A dangling or misplaced question mark after a RFC 8141 specific string, and
a malformed f-component, ended the parse with neither an URN nor an error,
so that Parse() reported success together with a nil URN.
---
 machine.go    | 6 ++++++
 machine.go.rl | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/machine.go b/machine.go
index 3a019d6..9002e83 100644
--- a/machine.go
+++ b/machine.go
@@ -24,6 +24,7 @@ var (
 	err8141RComponentStart = "expecting only one r-component (starting with the ?+ sequence) [col %d]"
 	err8141QComponentStart = "expecting only one q-component (starting with the ?= sequence) [col %d]"
 	err8141MalformedRComp  = "expecting a non-empty r-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]"
+	errMalformed           = "unexpected character, or unexpected end of the input [col %d]"
 	err8141MalformedQComp  = "expecting a non-empty q-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]"
 )
 var _toStateActions []byte = []byte{
@@ -5003,6 +5004,11 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	}
 
 	if m.cs < firstFinal || m.cs == enFail {
+		if m.err == nil {
+			// No error action matched: the machine stopped at the current position
+			m.err = fmt.Errorf(errMalformed, m.p)
+		}
+
 		return nil, m.err
 	}
 
diff --git a/machine.go.rl b/machine.go.rl
index f606e2c..1dd0950 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -24,6 +24,7 @@ var (
     err8141RComponentStart = "expecting only one r-component (starting with the ?+ sequence) [col %d]"
     err8141QComponentStart = "expecting only one q-component (starting with the ?= sequence) [col %d]"
     err8141MalformedRComp  = "expecting a non-empty r-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]"
+    errMalformed           = "unexpected character, or unexpected end of the input [col %d]"
     err8141MalformedQComp  = "expecting a non-empty q-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]"
 )
 
@@ -371,6 +372,11 @@ func (m *machine) Parse(input []byte) (*URN, error) {
     %% write exec;
 
     if m.cs < first_final || m.cs == en_fail {
+        if m.err == nil {
+            // No error action matched: the machine stopped at the current position
+            m.err = fmt.Errorf(errMalformed, m.p)
+        }
+
         return nil, m.err
     }
 
-- 
2.43.0


From 988973eb6e0b82600f06856d89a055f0dd250819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 4/9] fix: honour the Default parsing mode

WithParsingMode(Default) left the machine without an entry state: every
parse returned neither an URN nor an error.
---
 machine.go    | 3 +++
 machine.go.rl | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/machine.go b/machine.go
index 9002e83..7dbb3fe 100644
--- a/machine.go
+++ b/machine.go
@@ -5016,6 +5016,9 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 }
 
 func (m *machine) WithParsingMode(x ParsingMode) {
+	if x == Default {
+		x = DefaultParsingMode
+	}
 	m.parsingMode = x
 	switch m.parsingMode {
 	case RFC2141Only:
diff --git a/machine.go.rl b/machine.go.rl
index 1dd0950..2eca659 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -384,6 +384,9 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 }
 
 func (m *machine) WithParsingMode(x ParsingMode) {
+    if x == Default {
+        x = DefaultParsingMode
+    }
     m.parsingMode = x
     switch m.parsingMode {
         case RFC2141Only:
-- 
2.43.0


From 405c038824d7dda4047e380c9c22368866f5601e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 5/9] fix: keep the prefix when a RFC 8141 identifier begins
 with urn-

Matching the identifier of urn:URN-7:x overwrote the prefix, so that the
string form was URN:URN-7:x.
---
 machine.go    | 5 ++++-
 machine.go.rl | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/machine.go b/machine.go
index 7dbb3fe..1fcf6e0 100644
--- a/machine.go
+++ b/machine.go
@@ -4171,7 +4171,10 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		goto _again
 	f2:
 
-		output.prefix = string(m.text())
+		// Keep the actual prefix when the namespace identifier begins with "urn" too
+		if output.prefix == "" {
+			output.prefix = string(m.text())
+		}
 
 		goto _again
 	f6:
diff --git a/machine.go.rl b/machine.go.rl
index 2eca659..7c83158 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -44,7 +44,10 @@ action tolower {
 }
 
 action set_pre {
-    output.prefix = string(m.text())
+    // Keep the actual prefix when the namespace identifier begins with "urn" too
+    if output.prefix == "" {
+        output.prefix = string(m.text())
+    }
 }
 
 action throw_pre_urn_err {
-- 
2.43.0


From 4b5d19ef60e7650644941cdc29c870ee47e31acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 6/9] fix: make normalization idempotent

The normalized URN lacked its normalized specific string: normalizing it
again emptied it, and an URN was not equal to its own normalization.
---
 urn.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/urn.go b/urn.go
index 894d625..f9c94a9 100644
--- a/urn.go
+++ b/urn.go
@@ -38,6 +38,7 @@ func (u *URN) Normalize() *URN {
 		prefix: "urn",
 		ID:     strings.ToLower(u.ID),
 		SS:     u.norm,
+		norm:   u.norm,
 		// rComponent: u.rComponent,
 		// qComponent: u.qComponent,
 		// fComponent: u.fComponent,
-- 
2.43.0


From be377cff2d96e60473c4a655a366411b3555988e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 7/9] fix: normalize and compare URNs not coming from a parse

An URN built from its exported fields has no normalized specific string:
any two of them with the same identifier were equal, and normalizing one
emptied its specific string.
---
 urn.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/urn.go b/urn.go
index f9c94a9..9c48c2d 100644
--- a/urn.go
+++ b/urn.go
@@ -34,17 +34,41 @@ type URN struct {
 //
 // Which means: lowercase prefix, lowercase namespace identifier, and immutate namespace specific string chars (except <hex> tokens which are lowercased).
 func (u *URN) Normalize() *URN {
+	norm := u.norm
+	if norm == "" {
+		// Not the outcome of a parse
+		norm = lowerHex(u.SS)
+	}
+
 	return &URN{
 		prefix: "urn",
 		ID:     strings.ToLower(u.ID),
-		SS:     u.norm,
-		norm:   u.norm,
+		SS:     norm,
+		norm:   norm,
 		// rComponent: u.rComponent,
 		// qComponent: u.qComponent,
 		// fComponent: u.fComponent,
 	}
 }
 
+// lowerHex lowercases the <hex> tokens of a namespace specific string.
+func lowerHex(ss string) string {
+	b := []byte(ss)
+	for i := 0; i+2 < len(b); i++ {
+		if b[i] != '%' {
+			continue
+		}
+		for j := i + 1; j <= i+2; j++ {
+			if 'A' <= b[j] && b[j] <= 'Z' {
+				b[j] += 'a' - 'A'
+			}
+		}
+		i += 2
+	}
+
+	return string(b)
+}
+
 // Equal checks the lexical equivalence of the current URN with another one.
 func (u *URN) Equal(x *URN) bool {
 	if x == nil {
-- 
2.43.0


From 7c6298204cedf6ea0d0d42b34b64ddb4a0829837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 8/9] fix: refuse malformed RFC 8141 informal identifiers

Only the character next to "urn-" was checked, and only for being a letter
or a zero: urn:urn-1x:y and urn:urn--1:y were accepted.
---
 machine.go    | 33 +++++++++++++++++++++++++++++++++
 machine.go.rl | 21 +++++++++++++++++++++
 2 files changed, 54 insertions(+)

diff --git a/machine.go b/machine.go
index 1fcf6e0..a3b9a69 100644
--- a/machine.go
+++ b/machine.go
@@ -136,6 +136,21 @@ func (m *machine) text() []byte {
 	return m.data[m.pb:m.p]
 }
 
+// isMalformedInformal tells whether id begins with "urn-" (whatever case) without going on with a number (no leading zeros).
+func isMalformedInformal(id string) bool {
+	if len(id) < 4 || !strings.EqualFold(id[:4], "urn-") {
+		return false
+	}
+	num := id[4:]
+	for i := 0; i < len(num); i++ {
+		if num[i] < '0' || num[i] > '9' {
+			return true
+		}
+	}
+
+	return num == "" || num[0] == '0'
+}
+
 // lowerAt returns a copy of s where the upper letters at the given positions are lowercased.
 func lowerAt(s string, positions []int) string {
 	b := []byte(s)
@@ -4180,6 +4195,15 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	f6:
 
 		output.ID = string(m.text())
+		if m.parsingMode == RFC8141Only && isMalformedInformal(output.ID) {
+			// Report the position of the dash
+			m.err = fmt.Errorf(err8141InformalID, m.pb+3)
+			(m.p)--
+
+			m.cs = 193
+			goto _again
+
+		}
 
 		goto _again
 	f38:
@@ -4383,6 +4407,15 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	f12:
 
 		output.ID = string(m.text())
+		if m.parsingMode == RFC8141Only && isMalformedInformal(output.ID) {
+			// Report the position of the dash
+			m.err = fmt.Errorf(err8141InformalID, m.pb+3)
+			(m.p)--
+
+			m.cs = 193
+			goto _again
+
+		}
 
 		output.scim = &SCIM{}
 
diff --git a/machine.go.rl b/machine.go.rl
index 7c83158..b3e5ec9 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -66,6 +66,12 @@ action throw_pre_urn_err {
 
 action set_nid {
     output.ID = string(m.text())
+    if m.parsingMode == RFC8141Only && isMalformedInformal(output.ID) {
+        // Report the position of the dash
+        m.err = fmt.Errorf(err8141InformalID, m.pb+3)
+        fhold;
+        fgoto fail;
+    }
 }
 
 action set_nss {
@@ -349,6 +355,21 @@ func (m *machine) text() []byte {
     return m.data[m.pb:m.p]
 }
 
+// isMalformedInformal tells whether id begins with "urn-" (whatever case) without going on with a number (no leading zeros).
+func isMalformedInformal(id string) bool {
+    if len(id) < 4 || !strings.EqualFold(id[:4], "urn-") {
+        return false
+    }
+    num := id[4:]
+    for i := 0; i < len(num); i++ {
+        if num[i] < '0' || num[i] > '9' {
+            return true
+        }
+    }
+
+    return num == "" || num[0] == '0'
+}
+
 // lowerAt returns a copy of s where the upper letters at the given positions are lowercased.
 func lowerAt(s string, positions []int) string {
     b := []byte(s)
-- 
2.43.0


From 64a538536be081f2231e2c516a39f24454b9a1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 9/9] fix: report what follows a percent triple as the part's
 error

---
 machine.go    | 47 +++++++++++++++++++++++++++++++++--------------
 machine.go.rl |  8 +++++++-
 2 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/machine.go b/machine.go
index a3b9a69..9678df5 100644
--- a/machine.go
+++ b/machine.go
@@ -136,6 +136,11 @@ func (m *machine) text() []byte {
 	return m.data[m.pb:m.p]
 }
 
+// insideTriple tells whether the current position follows a percent sign or a percent sign and another char.
+func (m *machine) insideTriple() bool {
+	return (m.p > 0 && m.data[m.p-1] == '%') || (m.p > 1 && m.data[m.p-2] == '%')
+}
+
 // isMalformedInformal tells whether id begins with "urn-" (whatever case) without going on with a number (no leading zeros).
 func isMalformedInformal(id string) bool {
 	if len(id) < 4 || !strings.EqualFold(id[:4], "urn-") {
@@ -4242,7 +4247,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		goto _again
 	f23:
 
-		if m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only {
+		// What follows a complete triple is not part of it
+		if (m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only) && m.insideTriple() {
 			m.err = fmt.Errorf(errHex, m.p)
 			(m.p)--
 
@@ -4452,7 +4458,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		goto _again
 	f8:
 
-		if m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only {
+		// What follows a complete triple is not part of it
+		if (m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only) && m.insideTriple() {
 			m.err = fmt.Errorf(errHex, m.p)
 			(m.p)--
 
@@ -4470,7 +4477,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		goto _again
 	f19:
 
-		if m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only {
+		// What follows a complete triple is not part of it
+		if (m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only) && m.insideTriple() {
 			m.err = fmt.Errorf(errHex, m.p)
 			(m.p)--
 
@@ -4492,7 +4500,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		goto _again
 	f24:
 
-		if m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only {
+		// What follows a complete triple is not part of it
+		if (m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only) && m.insideTriple() {
 			m.err = fmt.Errorf(errHex, m.p)
 			(m.p)--
 
@@ -4510,7 +4519,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		goto _again
 	f27:
 
-		if m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only {
+		// What follows a complete triple is not part of it
+		if (m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only) && m.insideTriple() {
 			m.err = fmt.Errorf(errHex, m.p)
 			(m.p)--
 
@@ -4528,7 +4538,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		goto _again
 	f28:
 
-		if m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only {
+		// What follows a complete triple is not part of it
+		if (m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only) && m.insideTriple() {
 			m.err = fmt.Errorf(errHex, m.p)
 			(m.p)--
 
@@ -4636,7 +4647,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		goto _again
 	f29:
 
-		if m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only {
+		// What follows a complete triple is not part of it
+		if (m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only) && m.insideTriple() {
 			m.err = fmt.Errorf(errHex, m.p)
 			(m.p)--
 
@@ -4707,7 +4719,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 
 			case 24:
 
-				if m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only {
+				// What follows a complete triple is not part of it
+				if (m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only) && m.insideTriple() {
 					m.err = fmt.Errorf(errHex, m.p)
 					(m.p)--
 
@@ -4830,7 +4843,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 
 			case 9:
 
-				if m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only {
+				// What follows a complete triple is not part of it
+				if (m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only) && m.insideTriple() {
 					m.err = fmt.Errorf(errHex, m.p)
 					(m.p)--
 
@@ -4847,7 +4861,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 
 			case 20:
 
-				if m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only {
+				// What follows a complete triple is not part of it
+				if (m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only) && m.insideTriple() {
 					m.err = fmt.Errorf(errHex, m.p)
 					(m.p)--
 
@@ -4868,7 +4883,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 
 			case 25:
 
-				if m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only {
+				// What follows a complete triple is not part of it
+				if (m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only) && m.insideTriple() {
 					m.err = fmt.Errorf(errHex, m.p)
 					(m.p)--
 
@@ -4885,7 +4901,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 
 			case 28:
 
-				if m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only {
+				// What follows a complete triple is not part of it
+				if (m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only) && m.insideTriple() {
 					m.err = fmt.Errorf(errHex, m.p)
 					(m.p)--
 
@@ -4902,7 +4919,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 
 			case 29:
 
-				if m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only {
+				// What follows a complete triple is not part of it
+				if (m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only) && m.insideTriple() {
 					m.err = fmt.Errorf(errHex, m.p)
 					(m.p)--
 
@@ -4959,7 +4977,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 
 			case 30:
 
-				if m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only {
+				// What follows a complete triple is not part of it
+				if (m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only) && m.insideTriple() {
 					m.err = fmt.Errorf(errHex, m.p)
 					(m.p)--
 
diff --git a/machine.go.rl b/machine.go.rl
index b3e5ec9..2784dd0 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -105,7 +105,8 @@ action err_urn {
 }
 
 action err_hex {
-    if m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only {
+    // What follows a complete triple is not part of it
+    if (m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only) && m.insideTriple() {
         m.err = fmt.Errorf(errHex, m.p)
         fhold;
         fgoto fail;
@@ -355,6 +356,11 @@ func (m *machine) text() []byte {
     return m.data[m.pb:m.p]
 }
 
+// insideTriple tells whether the current position follows a percent sign or a percent sign and another char.
+func (m *machine) insideTriple() bool {
+    return (m.p > 0 && m.data[m.p-1] == '%') || (m.p > 1 && m.data[m.p-2] == '%')
+}
+
 // isMalformedInformal tells whether id begins with "urn-" (whatever case) without going on with a number (no leading zeros).
 func isMalformedInformal(id string) bool {
     if len(id) < 4 || !strings.EqualFold(id[:4], "urn-") {
-- 
2.43.0

