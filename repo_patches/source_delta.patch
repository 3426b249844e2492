From a6b0e32494bd7e82e57e13d935f9aaa84dc2b89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:44 +0000
Subject: [PATCH 01/21] fix: ToMarker refuses positions outside the text

---
 scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scanner.go b/scanner.go
index 475845e..965251d 100644
--- a/scanner.go
+++ b/scanner.go
@@ -371,7 +371,7 @@ type Marker int
 // Moves s to the marked position.
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) ToMarker(m Marker) bool {
-	if m < 0 && Marker(len(s.full)) <= m {
+	if m < 0 || Marker(len(s.full)) < m {
 		return false
 	}
 	s.pos = int(m)
-- 
2.43.0


From 548cb8890e013b17df1e49c9b2f4ae06331ae458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:45 +0000
Subject: [PATCH 02/21] fix: fold functions do not panic when the text is
 shorter than str

---
 scanner.go     | 3 +++
 scanner_rev.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/scanner.go b/scanner.go
index 965251d..b369449 100644
--- a/scanner.go
+++ b/scanner.go
@@ -102,6 +102,9 @@ func (s *Scanner) To(str string) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) IfFold(str string) bool {
 	i := len(str)
+	if len(s.Tail()) < i {
+		return false
+	}
 	prefix := s.Tail()[:i]
 	if strings.EqualFold(prefix, str) {
 		return s.Move(i)
diff --git a/scanner_rev.go b/scanner_rev.go
index 997b270..9ecd814 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -53,6 +53,9 @@ func (s *Scanner) RevTo(str string) bool {
 func (s *Scanner) RevIfFold(str string) bool {
 	i := len(str)
 	head := s.Head()
+	if len(head) < i {
+		return false
+	}
 	suffix := head[len(head)-i:]
 	if strings.EqualFold(suffix, str) {
 		return s.Move(-i)
@@ -66,6 +69,9 @@ func (s *Scanner) RevToFold(str string) bool {
 	i := len(str)
 	itr := makeRevItr(s.Head())
 	for itr.next() {
+		if len(itr.Str) < i {
+			break
+		}
 		suffix := itr.Str[len(itr.Str)-i:]
 		if strings.EqualFold(suffix, str) {
 			return s.Move(-itr.pos())
-- 
2.43.0


From a1fc574c0cd2aef11241160a1595129d5df13718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:46 +0000
Subject: [PATCH 03/21] fix: WhileMatch moves to the end if all runes match

---
 scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scanner.go b/scanner.go
index b369449..b347ac0 100644
--- a/scanner.go
+++ b/scanner.go
@@ -294,7 +294,7 @@ func (s *Scanner) WhileMatch(check MatchFunc) bool {
 		}
 	}
 
-	return false
+	return s.ToEnd()
 }
 
 // ----------------------------------------------------------------------- state
-- 
2.43.0


From 66bf64823c815cdcccfe75a6846a498e50734fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:47 +0000
Subject: [PATCH 04/21] fix: RevIfBetween and RevIfMatch move if the rune
 matches

---
 scanner_rev.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scanner_rev.go b/scanner_rev.go
index 9ecd814..5a3fcb3 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -174,7 +174,7 @@ func (s *Scanner) RevWhileAnyRune(str string) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfBetween(min, max rune) bool {
 	last, i := utf8.DecodeLastRuneInString(s.Head())
-	if i == -1 || inRange(min, last, max) {
+	if i == 0 || !inRange(min, last, max) {
 		return false
 	}
 	return s.Move(-i)
@@ -217,7 +217,7 @@ func (s *Scanner) RevWhileBetween(min, max rune) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfMatch(check MatchFunc) bool {
 	last, i := utf8.DecodeLastRuneInString(s.Head())
-	if i == -1 || check(last) {
+	if i == 0 || !check(last) {
 		return false
 	}
 	return s.Move(-i)
-- 
2.43.0


From b08490f7e5e4577ed759fd5162c419108c7fd5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:48 +0000
Subject: [PATCH 05/21] fix: single rune checks do not match at the end or
 start of the text

---
 scanner.go     | 2 +-
 scanner_rev.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scanner.go b/scanner.go
index b347ac0..a78be6e 100644
--- a/scanner.go
+++ b/scanner.go
@@ -131,7 +131,7 @@ func (s *Scanner) ToFold(str string) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) IfRune(r rune) bool {
 	first, i := utf8.DecodeRuneInString(s.Tail())
-	if i == -1 || first != r {
+	if i == 0 || first != r {
 		return false
 	}
 	return s.Move(i)
diff --git a/scanner_rev.go b/scanner_rev.go
index 5a3fcb3..4bf3415 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -86,7 +86,7 @@ func (s *Scanner) RevToFold(str string) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfRune(r rune) bool {
 	last, i := utf8.DecodeLastRuneInString(s.Head())
-	if i == -1 || last != r {
+	if i == 0 || last != r {
 		return false
 	}
 	return s.Move(-i)
@@ -131,7 +131,7 @@ func (s *Scanner) RevWhileRune(r rune) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfAnyRune(str string) bool {
 	last, i := utf8.DecodeLastRuneInString(s.Head())
-	if i != -1 && strings.ContainsRune(str, last) {
+	if i != 0 && strings.ContainsRune(str, last) {
 		return s.Move(-i)
 	}
 	return false
-- 
2.43.0


From 7b3aa104a8bf22e6f76431364abe5f1c5d271ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:49 +0000
Subject: [PATCH 06/21] fix: reverse iteration does not stop at U+FFFD and
 invalid bytes

---
 intl.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/intl.go b/intl.go
index 1f0a2cc..e2edfe7 100644
--- a/intl.go
+++ b/intl.go
@@ -23,11 +23,9 @@ func makeRevItr(str string) revItr {
 }
 
 func (itr *revItr) next() bool {
-	if itr.Val != utf8.RuneError {
-		itr.Str = itr.Str[0 : len(itr.Str)-itr.vi]
-	}
+	itr.Str = itr.Str[0 : len(itr.Str)-itr.vi]
 	itr.Val, itr.vi = utf8.DecodeLastRuneInString(itr.Str)
-	return itr.Val != utf8.RuneError
+	return itr.vi != 0
 }
 
 func (itr *revItr) pos() int {
-- 
2.43.0


From f22bb16f7a91d02a1decd5c28dc89d54e70a8852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:50 +0000
Subject: [PATCH 07/21] fix: MoveRunes uses the width of the rune in the text

---
 scanner.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scanner.go b/scanner.go
index a78be6e..e27cf24 100644
--- a/scanner.go
+++ b/scanner.go
@@ -337,10 +337,12 @@ func (s *Scanner) Move(n int) bool {
 func (s *Scanner) MoveRunes(n int) bool {
 	c := 0
 	if n > 0 {
-		for i, r := range s.Tail() {
+		tail := s.Tail()
+		for i := range tail {
 			c++
 			if n == c {
-				return s.Move(i + utf8.RuneLen(r))
+				_, w := utf8.DecodeRuneInString(tail[i:])
+				return s.Move(i + w)
 			}
 		}
 		return false
@@ -349,7 +351,7 @@ func (s *Scanner) MoveRunes(n int) bool {
 		for itr.next() {
 			c--
 			if n == c {
-				return s.Move(-(itr.pos() + utf8.RuneLen(itr.Val)))
+				return s.Move(-(itr.pos() + itr.vi))
 			}
 		}
 		return false
-- 
2.43.0


From 6bbd9bf9c5e7af482538ba2d9279a8c2184f5742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:51 +0000
Subject: [PATCH 08/21] fix: Holey does not match at the end of the text

---
 reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 0fddcef..dc734a0 100644
--- a/reader.go
+++ b/reader.go
@@ -448,7 +448,7 @@ type holeyReader struct {
 
 func (r holeyReader) Read(s *Scanner) error {
 	val, i := utf8.DecodeRuneInString(s.Tail())
-	if inRange(r.min, val, r.max) && !strings.ContainsRune(r.holes, val) {
+	if i != 0 && inRange(r.min, val, r.max) && !strings.ContainsRune(r.holes, val) {
 		return s.ErrorIfFalse(s.Move(i), r.What())
 	}
 	return s.ErrorFor(r.What())
-- 
2.43.0


From 917d4aa676890b8f1ce99f3c1f0075a6a71a6bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:52 +0000
Subject: [PATCH 09/21] fix: Not fails at the end of the text

---
 reader.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index dc734a0..66fd8aa 100644
--- a/reader.go
+++ b/reader.go
@@ -709,8 +709,7 @@ func (r *notReader) Read(s *Scanner) error {
 	if err == nil {
 		return s.ErrorFor(r.sub.What())
 	}
-	s.MoveRunes(1)
-	return nil
+	return s.ErrorIfFalse(s.MoveRunes(1), r.What())
 }
 
 func (r *notReader) What() string {
-- 
2.43.0


From d3ce6e8dad9025e114e0cf3f6a3dedf4a7eeca4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:53 +0000
Subject: [PATCH 10/21] fix: ScanString can read all the remaining runes

---
 intl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intl.go b/intl.go
index e2edfe7..bb34c9b 100644
--- a/intl.go
+++ b/intl.go
@@ -42,7 +42,7 @@ func getPrefix(str string, n int) (string, bool) {
 		}
 		count++
 	}
-	return str, false
+	return str, count == n
 }
 
 func midSubString(str string, from int) string {
-- 
2.43.0


From 2a453a63394096de0cf3e828b202b3cde1d489cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:54 +0000
Subject: [PATCH 11/21] fix: ReadInt and ReadUint stop before the value
 overflows

---
 read.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/read.go b/read.go
index 0773827..d10d6c8 100644
--- a/read.go
+++ b/read.go
@@ -110,12 +110,12 @@ func (s *Scanner) ReadInt(base int, bitSize int) (int64, error) {
 
 		if neg {
 			tmp = (i64)*int64(base) - int64(v)
-			if i64 < tmp || tmp < min {
+			if i64 < (min+int64(v))/int64(base) {
 				break
 			}
 		} else {
 			tmp = (i64 * int64(base)) + int64(v)
-			if i64 > tmp || tmp > max {
+			if i64 > (max-int64(v))/int64(base) {
 				break
 			}
 		}
@@ -197,7 +197,7 @@ func (s *Scanner) ReadUint(base int, bitSize int) (uint64, error) {
 		}
 
 		tmp = (u64 * uint64(base)) + uint64(v)
-		if u64 > tmp || tmp > max {
+		if u64 > (max-uint64(v))/uint64(base) {
 			break
 		}
 
-- 
2.43.0


From 3909263a5e9ebd743bcb792d8c17fdb85dbe4a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:55 +0000
Subject: [PATCH 12/21] fix: Many and Zom stop if the sub reader does not move
 the scanner

---
 reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 66fd8aa..8a42435 100644
--- a/reader.go
+++ b/reader.go
@@ -607,7 +607,7 @@ type manyReader struct {
 
 func (r manyReader) Read(s *Scanner) error {
 	start := s.Mark()
-	for r.sub.Read(s) == nil {
+	for m := start; r.sub.Read(s) == nil && s.Mark() != m; m = s.Mark() {
 	}
 	end := s.Mark()
 	return s.ErrorIfFalse(start < end, r.What())
@@ -1003,7 +1003,7 @@ type zomReader struct {
 }
 
 func (r zomReader) Read(s *Scanner) error {
-	for r.sub.Read(s) == nil {
+	for m := s.Mark(); r.sub.Read(s) == nil && s.Mark() != m; m = s.Mark() {
 	}
 	return nil
 }
-- 
2.43.0


From 04b0b8ff81f698cef512d864cdd7f52af40aecd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:56 +0000
Subject: [PATCH 13/21] fix: Times moves the scanner back if it fails

---
 reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reader.go b/reader.go
index 8a42435..322b4cf 100644
--- a/reader.go
+++ b/reader.go
@@ -895,8 +895,10 @@ type timesReader struct {
 }
 
 func (r *timesReader) Read(s *Scanner) error {
+	m := s.Mark()
 	for i := 0; i < r.n; i++ {
 		if e := r.sub.Read(s); e != nil {
+			s.ToMarker(m)
 			return e
 		}
 	}
-- 
2.43.0


From 8bb51f3e96455d808e02c9b6cfa36959ffb89597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:57 +0000
Subject: [PATCH 14/21] fix: SortSegments uses a strict order and keeps equal
 segments stable

---
 segment.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/segment.go b/segment.go
index c280450..9ecd075 100644
--- a/segment.go
+++ b/segment.go
@@ -45,13 +45,17 @@ func (s *segSorter) Swap(i, j int) {
 	s.values[i], s.values[j] = s.values[j], s.values[i]
 }
 
+func sortsBefore(a, b Token) bool {
+	return a.Covers(b) || (a.Before(b) && !b.Covers(a))
+}
+
 // SortSegments sorts the segments in a slice.
 // Segments that cover other segments will appear before the covered values.
 func SortSegments(values []Segment) {
 	sorter := &segSorter{
 		values: values,
 		cmpFunc: func(a, b Segment) bool {
-			return a.Covers(b.Token) || a.Before(b.Token)
+			return a.Token != b.Token && sortsBefore(a.Token, b.Token)
 		},
 	}
 	sort.Stable(sorter)
@@ -64,7 +68,7 @@ func SortSegmentsByOrder(values []Segment, order []string) {
 		values: values,
 		cmpFunc: func(a, b Segment) bool {
 			if a.Token != b.Token {
-				return a.Covers(b.Token) || a.Before(b.Token)
+				return sortsBefore(a.Token, b.Token)
 			}
 			ai, bi := -1, -1
 			for i, info := range order {
-- 
2.43.0


From 0acaac8bf2990c2bd055d280c199bbf6791003b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:58 +0000
Subject: [PATCH 15/21] fix: CheckRuleName checks the full name

---
 grammar.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar.go b/grammar.go
index bcacd3e..28d5204 100644
--- a/grammar.go
+++ b/grammar.go
@@ -141,7 +141,7 @@ func (r ruleNameReader) What() string {
 
 // CheckRuleName validates the Name field of a RuleReader.
 func CheckRuleName(name string) error {
-	return NewScanner(name).Use(RuleName())
+	return NewScanner(name).Use(Seq(RuleName(), AtEnd()))
 }
 
 // RuleName returns a Reader to validate a Name field of a RuleReader.
-- 
2.43.0


From f7b030711663e8144620f926a9fd82ad3001dbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:59 +0000
Subject: [PATCH 16/21] fix: While functions return false if the scanner was
 not moved

---
 scanner.go     | 6 ++++++
 scanner_rev.go | 8 ++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/scanner.go b/scanner.go
index e27cf24..b43a7af 100644
--- a/scanner.go
+++ b/scanner.go
@@ -158,6 +158,9 @@ func (s *Scanner) WhileRune(r rune) bool {
 
 	for i, v := range s.Tail() {
 		if v != r {
+			if i == 0 {
+				return false
+			}
 			return s.Move(i)
 		}
 	}
@@ -247,6 +250,9 @@ func (s *Scanner) WhileBetween(min, max rune) bool {
 
 	for i, v := range s.Tail() {
 		if !inRange(min, v, max) {
+			if i == 0 {
+				return false
+			}
 			return s.Move(i)
 		}
 	}
diff --git a/scanner_rev.go b/scanner_rev.go
index 4bf3415..c7505ab 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -116,7 +116,7 @@ func (s *Scanner) RevWhileRune(r rune) bool {
 	itr := makeRevItr(s.Head())
 	for itr.next() {
 		if itr.Val != r {
-			if itr.pos() == len(s.Head()) {
+			if itr.pos() == 0 {
 				return false
 			}
 			return s.Move(-itr.pos())
@@ -160,7 +160,7 @@ func (s *Scanner) RevWhileAnyRune(str string) bool {
 	itr := makeRevItr(s.Head())
 	for itr.next() {
 		if !strings.ContainsRune(str, itr.Val) {
-			if itr.pos() == len(s.Head()) {
+			if itr.pos() == 0 {
 				return false
 			}
 			return s.Move(-itr.pos())
@@ -202,7 +202,7 @@ func (s *Scanner) RevWhileBetween(min, max rune) bool {
 	itr := makeRevItr(s.Head())
 	for itr.next() {
 		if !inRange(min, itr.Val, max) {
-			if itr.pos() == len(s.Head()) {
+			if itr.pos() == 0 {
 				return false
 			}
 			return s.Move(-itr.pos())
@@ -245,7 +245,7 @@ func (s *Scanner) RevWhileMatch(check MatchFunc) bool {
 	itr := makeRevItr(s.Head())
 	for itr.next() {
 		if !check(itr.Val) {
-			if itr.pos() == len(s.Head()) {
+			if itr.pos() == 0 {
 				return false
 			}
 			return s.Move(-itr.pos())
-- 
2.43.0


From 51a5ebc57203f080f81b38926382b94f55f5e867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:00 +0000
Subject: [PATCH 17/21] fix: ReadRune and RevReadRune accept U+FFFD in the text

---
 read.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/read.go b/read.go
index d10d6c8..0f79e13 100644
--- a/read.go
+++ b/read.go
@@ -9,7 +9,7 @@ import (
 // ReadRune reads one rune value from the scanner.
 func (s *Scanner) ReadRune() (rune, error) {
 	r, i := utf8.DecodeRuneInString(s.Tail())
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && i <= 1 {
 		return utf8.RuneError, s.ErrorFor("rune")
 	}
 	return r, s.ErrorIfFalse(s.Move(i), "rune")
@@ -18,7 +18,7 @@ func (s *Scanner) ReadRune() (rune, error) {
 // RevReadRune reads one rune value from the scanner the reverse way.
 func (s *Scanner) RevReadRune() (rune, error) {
 	r, i := utf8.DecodeLastRuneInString(s.Head())
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && i <= 1 {
 		return r, s.ErrorFor("rune")
 	}
 	return r, s.ErrorIfFalse(s.Move(-i), "rune")
-- 
2.43.0


From e7e326b6582190851df8c118598c903d16b1d22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:01 +0000
Subject: [PATCH 18/21] fix: Log.Exit updates the entry in the log

---
 monitor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/monitor.go b/monitor.go
index cf3f8a3..d5db395 100644
--- a/monitor.go
+++ b/monitor.go
@@ -12,6 +12,7 @@ type LogEntry struct {
 	Level   int
 	ExitAt  int
 	Error   error
+	idx     int
 }
 
 func (e LogEntry) String() string {
@@ -36,6 +37,7 @@ func (l *Log) Enter(info string, pos int) *LogEntry {
 		EnterAt: pos,
 		Info:    info,
 		Level:   l.level,
+		idx:     i,
 	})
 	return &l.Entries[i]
 }
@@ -43,6 +45,9 @@ func (l *Log) Enter(info string, pos int) *LogEntry {
 func (l *Log) Exit(e *LogEntry, pos int, err error) {
 	e.ExitAt = pos
 	e.Error = err
+	if e.idx < len(l.Entries) {
+		l.Entries[e.idx] = *e
+	}
 	l.level--
 }
 
-- 
2.43.0


From 0ced1e62316b7ae5bcee9a129da085877dc31bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:42 +0000
Subject: [PATCH 19/21] fix: CollectRules panicked on a grammar with an
 unexported field

---
 grammar.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grammar.go b/grammar.go
index 28d5204..2ac5188 100644
--- a/grammar.go
+++ b/grammar.go
@@ -61,6 +61,9 @@ func CollectRules(g Grammar) []*Rule {
 	v := reflect.ValueOf(g).Elem()
 	for i := 0; i < v.NumField(); i++ {
 		field := v.Field(i)
+		if !field.CanInterface() {
+			continue
+		}
 		i := field.Addr().Interface()
 		ptr, ok := i.(*Rule)
 		if !ok {
-- 
2.43.0


From 420879ce01bab75fc0d9758248110774a2d7bcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:54 +0000
Subject: [PATCH 20/21] fix: a Lua line comment may end with the text

---
 grammar/lua.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index ad3eafc..2b9bf65 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -41,7 +41,7 @@ func LuaString() Reader {
 }
 
 func LuaComment() Reader {
-	line := Seq("--", To('\n'))
+	line := Seq("--", To(Any('\n', AtEnd())))
 	cmtHead, cmtTail := Janus("", Zom("="))
 	longBeg := Seq("--[", cmtHead, '[')
 	longEnd := Seq(']', cmtTail, ']')
-- 
2.43.0


From ee4aa5c14b751e87cff4e8251e40a80816aedf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:54 +0000
Subject: [PATCH 21/21] fix: a part that starts like the closing long bracket
 does not end or break a Lua long bracket

---
 grammar/lua.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 2b9bf65..a38e7f9 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -33,22 +33,36 @@ func LuaString() Reader {
 	)
 	normalString := Seq('"', Zom(Any(Holey(' ', utf8.MaxRune, `"\`), escapeSequence)), '"')
 	charString := Seq('\'', Zom(Any(Holey(' ', utf8.MaxRune, `'\`), escapeSequence)), '\'')
-	strHead, strTail := Janus("", Zom("="))
-	longBeg := Seq('[', strHead, '[')
-	longEnd := Seq(']', strTail, ']')
-	longString := Seq(longBeg, Past(longEnd))
+	longString := Seq('[', luaLongBracket{})
 	return Any(normalString, charString, longString)
 }
 
 func LuaComment() Reader {
 	line := Seq("--", To(Any('\n', AtEnd())))
-	cmtHead, cmtTail := Janus("", Zom("="))
-	longBeg := Seq("--[", cmtHead, '[')
-	longEnd := Seq(']', cmtTail, ']')
-	long := Seq(longBeg, Past(longEnd))
+	long := Seq("--[", luaLongBracket{})
 	return Any(long, line)
 }
 
+// luaLongBracket reads what follows the first '[' of a long bracket up to the closing bracket of the same level.
+// A part that starts like the closing bracket does not end it.
+type luaLongBracket struct{}
+
+func (luaLongBracket) Read(s *Scanner) error {
+	m := s.Mark()
+	level, err := s.CaptureUse(Zom("="))
+	if err == nil {
+		err = s.Use(Seq('[', Past(Seq(']', level, ']'))))
+	}
+	if err != nil {
+		s.ToMarker(m)
+	}
+	return err
+}
+
+func (luaLongBracket) What() string {
+	return "'='* '[' -->']' '='* ']'"
+}
+
 type LuaReader struct {
 	SheBang       Rule `name:"SheBang"`
 	Name          Rule `name:"Name"`
-- 
2.43.0

