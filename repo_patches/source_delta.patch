From b3f0ed61eb7649d99bd46aac0e45d6e1f56abe18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 01/25] fix: convert byte offsets to rune offsets, not to byte
 offsets

The mapping held the byte position of each character instead of its index,
and an empty range at the end of the sequence was out of its bounds.
---
 strutils/strutils.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/strutils/strutils.go b/strutils/strutils.go
index df27192..cae3a75 100644
--- a/strutils/strutils.go
+++ b/strutils/strutils.go
@@ -52,10 +52,16 @@ type BytesToRuneOffsetConverter struct {
 
 func NewBytesToRuneOffsetConverter(sequence string) *BytesToRuneOffsetConverter {
 	mapping := make([]int, 0, len(sequence))
-	for runeIndex, r := range sequence {
-		for range []byte(string(r)) {
-			mapping = append(mapping, runeIndex)
+	runesCount := 0
+	for byteIndex := range sequence {
+		// Close the previous rune, as wide as it is in the sequence
+		for len(mapping) < byteIndex {
+			mapping = append(mapping, runesCount-1)
 		}
+		runesCount++
+	}
+	for len(mapping) < len(sequence) {
+		mapping = append(mapping, runesCount-1)
 	}
 	return &BytesToRuneOffsetConverter{mapping: mapping}
 }
@@ -65,14 +71,15 @@ func (b *BytesToRuneOffsetConverter) Convert(offsets ByteOffsets) RuneOffsets {
 		return RuneOffsets{Start: 0, End: 0}
 	}
 
-	start := b.mapping[offsets.Start]
-
-	var end int
-	if offsets.End == len(b.mapping) {
-		end = b.mapping[offsets.End-1] + 1
-	} else {
-		end = b.mapping[offsets.End]
+	return RuneOffsets{
+		Start: b.runeOffset(offsets.Start),
+		End:   b.runeOffset(offsets.End),
 	}
+}
 
-	return RuneOffsets{Start: start, End: end}
+func (b *BytesToRuneOffsetConverter) runeOffset(byteOffset int) int {
+	if byteOffset == len(b.mapping) {
+		return b.mapping[byteOffset-1] + 1
+	}
+	return b.mapping[byteOffset]
 }
-- 
2.43.0


From 16bbe2ad498cca581ff55f70fc9358ac3b2109f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:26 +0000
Subject: [PATCH 02/25] fix: count the initial offset of a transformation in
 characters

TransformRange took it as a number of bytes, although every caller passes
the number of removed runes: removing leading multi-byte characters
misaligned the rest of the text, or panicked.
---
 normalizedstring/normalizedstring.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index fb82a95..40a3072 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -163,8 +163,9 @@ func (ns *NormalizedString) TransformRange(
 	// compute the change in byte sizes along the way.
 	replacedNormalizedString := ns.normalized[normalizedRange.Start():normalizedRange.End()]
 
-	initialRemoved := len(replacedNormalizedString[:initialOffset])
-	replacedNormalizedRunes := []rune(replacedNormalizedString[initialOffset:])
+	replacedNormalizedRunes := []rune(replacedNormalizedString)
+	initialRemoved := len(string(replacedNormalizedRunes[:initialOffset]))
+	replacedNormalizedRunes = replacedNormalizedRunes[initialOffset:]
 
 	offset := initialRemoved + normalizedRange.Start()
 	alignments := make([]AlignmentRange, 0, normalizedRange.Len())
-- 
2.43.0


From 61ceb5a9d76b5b6fe33a1d7263435611bc6ce194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 03/25] fix: Append after the last character, whatever its
 width

The range to rewrite started at the index of the last rune instead of its
byte position, dropping text after any multi-byte character.
---
 normalizedstring/normalizedstring.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index 40a3072..9dc9b3b 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -10,6 +10,7 @@ import (
 	"github.com/nlpodyssey/gotokenizers/strutils"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 // NormalizedString takes care of processing an "original" string to modify
@@ -462,9 +463,7 @@ func (ns *NormalizedString) Append(s string) {
 
 	transformations := make([]RuneChange, 0, len(s)+1)
 
-	runes := []rune(ns.normalized)
-	lastRuneIndex := len(runes) - 1
-	lastRune := runes[lastRuneIndex]
+	lastRune, lastRuneSize := utf8.DecodeLastRuneInString(ns.normalized)
 
 	transformations = append(transformations, RuneChange{Rune: lastRune, Change: 0})
 
@@ -472,8 +471,7 @@ func (ns *NormalizedString) Append(s string) {
 		transformations = append(transformations, RuneChange{Rune: r, Change: 1})
 	}
 
-	// FIXME: it's probably wrong to pass the rune index, instead of byte index
-	ns.TransformRange(NewNormalizedRange(lastRuneIndex, ns.Len()), transformations, 0)
+	ns.TransformRange(NewNormalizedRange(ns.Len()-lastRuneSize, ns.Len()), transformations, 0)
 }
 
 // SplitDelimiterBehavior is used by NormalizedString.Split to define the
-- 
2.43.0


From de1640115c2d82741ab1d4785d3f674d70ce4810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 04/25] fix: prepending an empty string changes nothing

It aligned the first character with the empty range at the start of the
original string.
---
 normalizedstring/normalizedstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index 9dc9b3b..970acb7 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -432,7 +432,7 @@ func (ns *NormalizedString) CoerceRangeToOriginal(r Range) (OriginalRange, bool)
 //
 // FIXME: Prepend does nothing if the normalized string is empty
 func (ns *NormalizedString) Prepend(s string) {
-	if len(ns.normalized) == 0 {
+	if len(ns.normalized) == 0 || len(s) == 0 {
 		return
 	}
 
-- 
2.43.0


From 0b3c4dafc1b7bdb79658a221e1dfa81081b63d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 05/25] fix: OriginalAlignments of an empty normalized string

It panicked on the missing first alignment.
---
 normalizedstring/normalizedstring.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index 970acb7..a8f7afe 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -244,6 +244,17 @@ func (ns *NormalizedString) OriginalAlignments() []AlignmentRange {
 	// (offset, length) are in originalAlignments
 	originalAlignments := make([]AlignmentRange, 0, len(ns.original))
 
+	if len(ns.alignments) == 0 {
+		// Everything was removed
+		for range []byte(ns.original) {
+			originalAlignments = append(originalAlignments, AlignmentRange{
+				start: 0,
+				end:   0,
+			})
+		}
+		return originalAlignments
+	}
+
 	// Eventual gap before first group
 
 	if start := ns.alignments[0].start; start > 0 {
-- 
2.43.0


From 8481fe27e58e845bfab4a6e326743769e6e93367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 06/25] fix: an empty literal pattern covers the whole text

The end offset was a number of runes instead of bytes.
---
 splitpattern/string.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/splitpattern/string.go b/splitpattern/string.go
index 808db8e..3a1be98 100644
--- a/splitpattern/string.go
+++ b/splitpattern/string.go
@@ -28,8 +28,7 @@ func (sp *StringSplitPattern) FindMatches(s string) ([]Capture, error) {
 	if sp.r == nil {
 		// If we try to find the matches with an empty string, just don't match anything
 		return []Capture{{
-			// FIXME: is len of runes (and not bytes) correct?
-			Offsets: strutils.ByteOffsets{Start: 0, End: len([]rune(s))},
+			Offsets: strutils.ByteOffsets{Start: 0, End: len(s)},
 			IsMatch: false,
 		}}, nil
 	}
-- 
2.43.0


From 7f38a621afa2145a1cef9bc762568fe0c3e1d6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 07/25] fix: WordPiece shortens candidates by whole characters

It moved the end back by the encoded size of the last byte taken as a
rune (always 2 for a non-ASCII one), so candidates ending with 3 byte
characters were cut in the middle or skipped.
---
 models/wordpiecemodel/wordpiecemodel.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/models/wordpiecemodel/wordpiecemodel.go b/models/wordpiecemodel/wordpiecemodel.go
index acda3c2..5978c80 100644
--- a/models/wordpiecemodel/wordpiecemodel.go
+++ b/models/wordpiecemodel/wordpiecemodel.go
@@ -9,6 +9,7 @@ import (
 	"github.com/nlpodyssey/gotokenizers/models"
 	"github.com/nlpodyssey/gotokenizers/strutils"
 	"github.com/nlpodyssey/gotokenizers/vocabulary"
+	"unicode/utf8"
 )
 
 var ErrUnknownTokenOutOfVocabulary = fmt.Errorf("the provided unk token is out of vocabulary")
@@ -91,11 +92,8 @@ func (m *WordPieceModel) Tokenize(sequence string) ([]models.Token, error) {
 				break
 			}
 
-			if len(subStr) > 0 {
-				end -= len(string(subStr[len(subStr)-1]))
-			} else {
-				end--
-			}
+			_, lastRuneSize := utf8.DecodeLastRuneInString(sequence[start:end])
+			end -= lastRuneSize
 		}
 
 		if !hasCurToken {
-- 
2.43.0


From d32a56eab73412e1fc04189a161ab0d303e8997d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 08/25] fix: BPE prefixes the subwords behind another one

The continuing subword prefix was put on the first character of the word
only, instead of on all others.
---
 models/bpemodel/bpemodel.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/bpemodel/bpemodel.go b/models/bpemodel/bpemodel.go
index 308f9fd..be9225b 100644
--- a/models/bpemodel/bpemodel.go
+++ b/models/bpemodel/bpemodel.go
@@ -139,7 +139,7 @@ func (m *BPEModel) mergeWord(w string) (*Word, error) {
 		s := string(r)
 		byteLen := len(s)
 
-		if i == 0 && m.hasContinuingSubwordPrefix() {
+		if i > 0 && m.hasContinuingSubwordPrefix() {
 			s = m.continuingSubwordPrefix + s
 		}
 		if i == lastRuneIndex && m.hasEndOfWordSuffix() {
-- 
2.43.0


From 9078be0ddbd73cf50a04c300e336a3053225fe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 09/25] fix: a vocabulary loaded from JSON null accepts new
 terms

AddTerm panicked writing to a nil map.
---
 vocabulary/vocabulary.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vocabulary/vocabulary.go b/vocabulary/vocabulary.go
index 4a8eaee..854c085 100644
--- a/vocabulary/vocabulary.go
+++ b/vocabulary/vocabulary.go
@@ -36,6 +36,11 @@ func FromJSONFile(filename string) (*Vocabulary, error) {
 		return nil, err
 	}
 
+	if termToID == nil {
+		// JSON null
+		termToID = make(map[string]int)
+	}
+
 	idToTerm := make(map[int]string, len(termToID))
 	for term, id := range termToID {
 		idToTerm[id] = term
-- 
2.43.0


From 00ce52a10cae53aee089c09a002998341b34809e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 10/25] fix: never give a new term the ID of another one

In a vocabulary loaded with non-consecutive IDs the size can be the ID of
an existing term.
---
 vocabulary/vocabulary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vocabulary/vocabulary.go b/vocabulary/vocabulary.go
index 854c085..9e7a9b1 100644
--- a/vocabulary/vocabulary.go
+++ b/vocabulary/vocabulary.go
@@ -58,6 +58,10 @@ func (v *Vocabulary) AddTerm(term string) {
 		return
 	}
 	id := v.Size()
+	// Skip the IDs taken by the terms of a vocabulary loaded with gaps
+	for _, taken := v.idToTerm[id]; taken; _, taken = v.idToTerm[id] {
+		id++
+	}
 	v.termToID[term] = id
 	v.idToTerm[id] = term
 }
-- 
2.43.0


From dfd893e9dc08c7d6d5f5e46152cc540554408a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:34 +0000
Subject: [PATCH 11/25] fix: reject a merge whose right term is shorter than
 the prefix

Loading it panicked.
---
 models/bpemodel/mergemap.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/models/bpemodel/mergemap.go b/models/bpemodel/mergemap.go
index 498caf6..b0dde19 100644
--- a/models/bpemodel/mergemap.go
+++ b/models/bpemodel/mergemap.go
@@ -72,6 +72,9 @@ func MergeMapFromFile(
 			return nil, fmt.Errorf("line %d: right merge token is out of vocabulary", lineCount)
 		}
 
+		if len(terms[1]) < prefixLength {
+			return nil, fmt.Errorf("line %d: right merge token is shorter than the prefix", lineCount)
+		}
 		mergedTerm := fmt.Sprintf("%s%s", terms[0], terms[1][prefixLength:])
 		mergedID, mergedOK := vocab.GetID(mergedTerm)
 		if !mergedOK {
-- 
2.43.0


From e2384f052e731b0c7830c44ab0aaeebc74ec903b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 12/25] fix: CJK Unified Ideographs Extension E begins at
 U+2B820

The first 256 ideographs of the block were not recognised.
---
 normalizers/bertnormalizer/bertnormalizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizers/bertnormalizer/bertnormalizer.go b/normalizers/bertnormalizer/bertnormalizer.go
index 3ff4501..60df23b 100644
--- a/normalizers/bertnormalizer/bertnormalizer.go
+++ b/normalizers/bertnormalizer/bertnormalizer.go
@@ -118,7 +118,7 @@ var chineseCharacters = &unicode.RangeTable{
 		{0x20000, 0x2a6df, 1},
 		{0x2a700, 0x2b73f, 1},
 		{0x2b740, 0x2b81f, 1},
-		{0x2b920, 0x2ceaf, 1},
+		{0x2b820, 0x2ceaf, 1},
 		{0x2f800, 0x2fa1f, 1},
 	},
 }
-- 
2.43.0


From 44e4fe49441859674dc44102597403f96ec94841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 13/25] fix: report ranges out of bounds instead of panicking

Fetching or converting a range which is reversed or outside the text it
refers to panicked, or was clipped silently, although the functions are
meant to report it as unsuccessful.
---
 normalizedstring/normalizedstring.go | 30 ++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index a8f7afe..a46bffd 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -330,8 +330,11 @@ func (ns *NormalizedString) OriginalAlignments() []AlignmentRange {
 // GetRange returns a range of the normalized string, and a flag which reports
 // whether the operation is successful or not.
 func (ns *NormalizedString) GetRange(rng Range) (string, bool) {
+	if !ns.rangeIsInside(rng) {
+		return "", false
+	}
 	nr, ok := ns.CoerceRangeToNormalized(rng)
-	if !ok {
+	if !ok || !ns.rangeIsInside(nr) {
 		return "", false
 	}
 	return ns.normalized[nr.Start():nr.End()], true
@@ -340,8 +343,11 @@ func (ns *NormalizedString) GetRange(rng Range) (string, bool) {
 // GetOriginalRange returns a range of the original string, and a flag which
 // reports whether the operation is successful or not.
 func (ns *NormalizedString) GetOriginalRange(rng Range) (string, bool) {
+	if !ns.rangeIsInside(rng) {
+		return "", false
+	}
 	or, ok := ns.CoerceRangeToOriginal(rng)
-	if !ok {
+	if !ok || !ns.rangeIsInside(or) {
 		return "", false
 	}
 	return ns.original[or.Start():or.End()], true
@@ -374,6 +380,11 @@ func (ns *NormalizedString) CoerceRangeToNormalized(r Range) (NormalizedRange, b
 		return NewNormalizedRange(0, ns.Len()), true
 	}
 
+	// A non-empty range must target something which exists
+	if !ns.rangeIsInside(r) {
+		return NewNormalizedRange(0, 0), false
+	}
+
 	start := -1
 	end := -1
 
@@ -433,6 +444,11 @@ func (ns *NormalizedString) CoerceRangeToOriginal(r Range) (OriginalRange, bool)
 		return NewOriginalRange(0, ns.OriginalLen()), true
 	}
 
+	// A non-empty range must target something which exists
+	if !ns.rangeIsInside(r) {
+		return NewOriginalRange(0, 0), false
+	}
+
 	alignments := ns.alignments[r.Start():r.End()]
 
 	// Expand alignments, returning the range covered by this slice
@@ -825,6 +841,16 @@ func (ns *NormalizedString) TrimLeftRight(left, right bool) {
 	ns.Transform(transforms, leadingSpaces)
 }
 
+// rangeIsInside reports whether the given range lies inside the text it
+// refers to, and does not go reverse.
+func (ns *NormalizedString) rangeIsInside(r Range) bool {
+	length := len(ns.normalized)
+	if _, isOriginal := r.(OriginalRange); isOriginal {
+		length = len(ns.original)
+	}
+	return r.Start() >= 0 && r.Start() <= r.End() && r.End() <= length
+}
+
 // rangeIsValid validates the given range, to make sure it is on rune boundaries.
 func (ns *NormalizedString) rangeIsValid(r Range) bool {
 	var s string
-- 
2.43.0


From 55cff5e23064d6baf08d78ace294abe0c4e1d07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 14/25] fix: slice by empty and reversed ranges

An empty range was taken as a position of both texts, giving the wrong
offsets or a panic once they differ. A reversed one panicked.
---
 normalizedstring/normalizedstring.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index a46bffd..3766dff 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -668,6 +668,13 @@ func (ns *NormalizedString) Slice(rng Range) (*NormalizedString, bool) {
 		return nil, false
 	}
 
+	if !ns.rangeIsInside(rng) {
+		return nil, false
+	}
+	if rng.Len() == 0 {
+		return New("", "", []AlignmentRange{}, ns.originalShift+ns.originalPosition(rng)), true
+	}
+
 	normalizedRange, nrOk := ns.CoerceRangeToNormalized(rng)
 	if !nrOk {
 		return nil, false
@@ -696,6 +703,18 @@ func (ns *NormalizedString) Slice(rng Range) (*NormalizedString, bool) {
 	return New(original, normalized, alignments, originalShift), true
 }
 
+// originalPosition returns the position in the original string of an empty
+// range: for a NormalizedRange, it is right after the preceding character.
+func (ns *NormalizedString) originalPosition(rng Range) int {
+	if _, isOriginal := rng.(OriginalRange); isOriginal {
+		return rng.Start()
+	}
+	if rng.Start() == 0 {
+		return 0
+	}
+	return ns.alignments[rng.Start()-1].end
+}
+
 // Filter applies filtering over the characters of the NormalizedString.
 func (ns *NormalizedString) Filter(keep func(rune) bool) {
 	removed := 0
-- 
2.43.0


From 3f96154a07017fbe9c6b7adbd971a5513f3fcf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:34 +0000
Subject: [PATCH 15/25] fix: stray continuation bytes are on rune boundaries

Any rune iteration takes them as characters of one byte, so splitting text
which is not valid UTF-8 failed.
---
 strutils/strutils.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/strutils/strutils.go b/strutils/strutils.go
index cae3a75..6463a83 100644
--- a/strutils/strutils.go
+++ b/strutils/strutils.go
@@ -4,6 +4,8 @@
 
 package strutils
 
+import "unicode/utf8"
+
 // IsRuneBoundary checks that `index`-th byte is the first byte in a UTF-8 code
 // point sequence or the end of the string.
 //
@@ -27,7 +29,18 @@ func IsRuneBoundary(s string, index int) bool {
 		return false
 	}
 	// This is bit magic equivalent to: s[index] < 128 || s[index] >= 192
-	return int8(s[index]) >= -0x40
+	if int8(s[index]) >= -0x40 {
+		return true
+	}
+	// A continuation byte is a boundary only if no code point sequence
+	// includes it, that is in a string which is not valid UTF-8.
+	for i := 1; i < utf8.UTFMax && i <= index; i++ {
+		if utf8.RuneStart(s[index-i]) {
+			_, size := utf8.DecodeRuneInString(s[index-i:])
+			return size <= i
+		}
+	}
+	return true
 }
 
 // ByteOffsets represents a (start, end) range of byte offset positions.
-- 
2.43.0


From e801a27eb7018877fede860ce24e3f284e5f0b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 16/25] fix: align text which is not valid UTF-8 with its bytes

Each invalid byte was taken as wide as the replacement character, so that
alignments went out of the original string and edits panicked.
---
 normalizedstring/normalizedstring.go | 30 ++++++++++++++++++----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index 3766dff..4145210 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -75,9 +75,8 @@ func FromString(s string) *NormalizedString {
 func alignmentsFromString(s string) []AlignmentRange {
 	alignments := make([]AlignmentRange, 0, len(s))
 
-	for runeIndex, r := range s {
-		strRune := string(r)
-		bytesLen := len(strRune)
+	for runeIndex := range s {
+		_, bytesLen := utf8.DecodeRuneInString(s[runeIndex:])
 		for byteIndex := 0; byteIndex < bytesLen; byteIndex++ {
 			alignments = append(alignments, AlignmentRange{
 				start: runeIndex,
@@ -164,9 +163,17 @@ func (ns *NormalizedString) TransformRange(
 	// compute the change in byte sizes along the way.
 	replacedNormalizedString := ns.normalized[normalizedRange.Start():normalizedRange.End()]
 
-	replacedNormalizedRunes := []rune(replacedNormalizedString)
-	initialRemoved := len(string(replacedNormalizedRunes[:initialOffset]))
-	replacedNormalizedRunes = replacedNormalizedRunes[initialOffset:]
+	replacedRuneSizes := make([]int, 0, len(replacedNormalizedString))
+	for i := range replacedNormalizedString {
+		_, size := utf8.DecodeRuneInString(replacedNormalizedString[i:])
+		replacedRuneSizes = append(replacedRuneSizes, size)
+	}
+
+	initialRemoved := 0
+	for _, size := range replacedRuneSizes[:initialOffset] {
+		initialRemoved += size
+	}
+	replacedRuneSizes = replacedRuneSizes[initialOffset:]
 
 	offset := initialRemoved + normalizedRange.Start()
 	alignments := make([]AlignmentRange, 0, normalizedRange.Len())
@@ -192,16 +199,17 @@ func (ns *NormalizedString) TransformRange(
 		// If we are replacing a character, find it and compute the change in size
 		replacedRuneSize := 0
 		if runeChange.Change <= 0 {
-			replacedRune := replacedNormalizedRunes[0]
-			replacedNormalizedRunes = replacedNormalizedRunes[1:]
-			replacedRuneSize = len(string(replacedRune))
+			replacedRuneSize = replacedRuneSizes[0]
+			replacedRuneSizes = replacedRuneSizes[1:]
 		}
 
 		// If we are removing some characters, find them too
 		totalBytesToRemove := 0
 		if runeChange.Change <= -1 {
-			totalBytesToRemove = len(string(replacedNormalizedRunes[:-runeChange.Change]))
-			replacedNormalizedRunes = replacedNormalizedRunes[-runeChange.Change:]
+			for _, size := range replacedRuneSizes[:-runeChange.Change] {
+				totalBytesToRemove += size
+			}
+			replacedRuneSizes = replacedRuneSizes[-runeChange.Change:]
 		}
 
 		// Keep track of the changes for next offsets
-- 
2.43.0


From 76c4966e7ec13fde7b9f3d7d00264b6773f7ee64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 17/25] fix: Prepend and Append leave the neighbouring
 character alone

They wrote it again, turning an invalid byte into a replacement character.
---
 normalizedstring/normalizedstring.go | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index 4145210..5657474 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -471,21 +471,21 @@ func (ns *NormalizedString) Prepend(s string) {
 		return
 	}
 
-	transformations := make([]RuneChange, 0, len(s)+1)
+	transformations := make([]RuneChange, 0, len(s))
 
-	for i, r := range s {
-		change := 0
-		if i > 0 {
-			change = 1
-		}
-		transformations = append(transformations, RuneChange{Rune: r, Change: change})
+	for _, r := range s {
+		transformations = append(transformations, RuneChange{Rune: r, Change: 1})
 	}
 
-	firstRune := []rune(ns.normalized)[0]
-	firstRuneBytesLen := len(string(firstRune))
-	transformations = append(transformations, RuneChange{Rune: firstRune, Change: 1})
+	previousLen := ns.Len()
+	firstAlignment := ns.alignments[0]
 
-	ns.TransformRange(NewNormalizedRange(0, firstRuneBytesLen), transformations, 0)
+	ns.TransformRange(NewNormalizedRange(0, 0), transformations, 0)
+
+	// The new characters share the alignment of the first one
+	for i := range ns.alignments[:ns.Len()-previousLen] {
+		ns.alignments[i] = firstAlignment
+	}
 }
 
 // Append appends the given string to the NormalizedString.
@@ -498,15 +498,11 @@ func (ns *NormalizedString) Append(s string) {
 
 	transformations := make([]RuneChange, 0, len(s)+1)
 
-	lastRune, lastRuneSize := utf8.DecodeLastRuneInString(ns.normalized)
-
-	transformations = append(transformations, RuneChange{Rune: lastRune, Change: 0})
-
 	for _, r := range s {
 		transformations = append(transformations, RuneChange{Rune: r, Change: 1})
 	}
 
-	ns.TransformRange(NewNormalizedRange(ns.Len()-lastRuneSize, ns.Len()), transformations, 0)
+	ns.TransformRange(NewNormalizedRange(ns.Len(), ns.Len()), transformations, 0)
 }
 
 // SplitDelimiterBehavior is used by NormalizedString.Split to define the
-- 
2.43.0


From 4b245bfa9fd2079fe98bad7ee0a768b804253cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 18/25] fix: a function pattern takes invalid bytes as wide as
 they are

Its captures overlapped and went out of the text.
---
 splitpattern/func.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/splitpattern/func.go b/splitpattern/func.go
index 6a836cf..be09ebe 100644
--- a/splitpattern/func.go
+++ b/splitpattern/func.go
@@ -4,7 +4,10 @@
 
 package splitpattern
 
-import "github.com/nlpodyssey/gotokenizers/strutils"
+import (
+	"github.com/nlpodyssey/gotokenizers/strutils"
+	"unicode/utf8"
+)
 
 type FuncSplitPattern struct {
 	f func(rune) bool
@@ -30,7 +33,7 @@ func (sp *FuncSplitPattern) FindMatches(s string) ([]Capture, error) {
 	splits := make([]Capture, 0, len(s))
 
 	for i, r := range s {
-		runeBytesLen := len(string(r))
+		_, runeBytesLen := utf8.DecodeRuneInString(s[i:])
 		lastSeen = i + runeBytesLen
 
 		if !sp.f(r) {
-- 
2.43.0


From 24b8cb5cf2983ee90bc275a06536bb4ce610101f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 19/25] fix: locate regexp2 matches in text which is not valid
 UTF-8

Invalid bytes before or inside a match were counted as wide as the
replacement character.
---
 splitpattern/regexp2.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/splitpattern/regexp2.go b/splitpattern/regexp2.go
index 909fa3f..bd0befa 100644
--- a/splitpattern/regexp2.go
+++ b/splitpattern/regexp2.go
@@ -27,7 +27,13 @@ func (sp *Regexp2SplitPattern) FindMatches(s string) ([]Capture, error) {
 		}}, nil
 	}
 
-	runes := []rune(s)
+	// Byte position of each rune, and of the end of the string
+	positions := make([]int, 0, len(s)+1)
+	for position := range s {
+		positions = append(positions, position)
+	}
+	positions = append(positions, len(s))
+
 	prev := 0
 	splits := make([]Capture, 0, len(s))
 
@@ -37,8 +43,8 @@ func (sp *Regexp2SplitPattern) FindMatches(s string) ([]Capture, error) {
 	}
 
 	for match != nil {
-		startByte := len(string(runes[:match.Index]))
-		endByte := startByte + len(match.String())
+		startByte := positions[match.Index]
+		endByte := positions[match.Index+match.Length]
 
 		if prev != startByte {
 			splits = append(splits, Capture{
-- 
2.43.0


From 1671926c34c45515765a93d65c441cd52e34253a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 20/25] fix: byte-level pre-tokenization of text which is not
 valid UTF-8

It read as many bytes as the replacement character has, mixing characters
up or panicking.
---
 .../bytelevelpretokenizer/bytelevelpretokenizer.go         | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go b/pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go
index c81f207..2b6ee2b 100644
--- a/pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go
+++ b/pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go
@@ -11,6 +11,7 @@ import (
 	"github.com/nlpodyssey/gotokenizers/pretokenizers"
 	"github.com/nlpodyssey/gotokenizers/splitpattern"
 	"unicode"
+	"unicode/utf8"
 )
 
 // ByteLevelPreTokenizer allows the generation of pre-tokens suitable in the
@@ -87,11 +88,9 @@ func (b *ByteLevelPreTokenizer) PreTokenize(pts *pretokenizedstring.PreTokenized
 	return pts.Normalize(func(ns *normalizedstring.NormalizedString) error {
 		s := ns.Get()
 		transformations := make([]normalizedstring.RuneChange, 0, len(s))
-		i := 0
-		for _, r := range s {
-			size := len(string(r))
+		for i := range s {
+			_, size := utf8.DecodeRuneInString(s[i:])
 			bytes := []byte(s[i : i+size])
-			i += size
 
 			for byteIndex, byteVal := range bytes {
 				change := 0
-- 
2.43.0


From 0c033738889e19fc0d36c1609b489f8e1df181d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 21/25] fix: BPE token offsets in words which are not valid
 UTF-8

Each invalid byte was counted as wide as the replacement character, so
offsets went out of the word.
---
 models/bpemodel/bpemodel.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/models/bpemodel/bpemodel.go b/models/bpemodel/bpemodel.go
index be9225b..1605036 100644
--- a/models/bpemodel/bpemodel.go
+++ b/models/bpemodel/bpemodel.go
@@ -9,6 +9,7 @@ import (
 	"github.com/nlpodyssey/gotokenizers/models"
 	"github.com/nlpodyssey/gotokenizers/strutils"
 	"github.com/nlpodyssey/gotokenizers/vocabulary"
+	"unicode/utf8"
 )
 
 var ErrUnknownTokenOutOfVocabulary = fmt.Errorf("the provided unk token is out of vocabulary")
@@ -132,17 +133,14 @@ func (m *BPEModel) mergeWord(w string) (*Word, error) {
 
 	var unk *Symbol
 
-	runes := []rune(w)
-	lastRuneIndex := len(runes) - 1
-
-	for i, r := range runes {
+	for i, r := range w {
 		s := string(r)
-		byteLen := len(s)
+		_, byteLen := utf8.DecodeRuneInString(w[i:])
 
 		if i > 0 && m.hasContinuingSubwordPrefix() {
 			s = m.continuingSubwordPrefix + s
 		}
-		if i == lastRuneIndex && m.hasEndOfWordSuffix() {
+		if i+byteLen == len(w) && m.hasEndOfWordSuffix() {
 			s = s + m.endOfWordSuffix
 		}
 
-- 
2.43.0


From 6da3c83ae4b103bfb7c07cc123046eac3ba93e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:52 +0000
Subject: [PATCH 22/25] fix: order the matches of right-to-left regular
 expressions

regexp2 finds them from the end of the text, so the captures overlapped
instead of covering it in order.
---
 splitpattern/regexp2.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/splitpattern/regexp2.go b/splitpattern/regexp2.go
index bd0befa..44e75f4 100644
--- a/splitpattern/regexp2.go
+++ b/splitpattern/regexp2.go
@@ -42,9 +42,29 @@ func (sp *Regexp2SplitPattern) FindMatches(s string) ([]Capture, error) {
 		return nil, err
 	}
 
+	matches := make([]strutils.ByteOffsets, 0)
 	for match != nil {
-		startByte := positions[match.Index]
-		endByte := positions[match.Index+match.Length]
+		matches = append(matches, strutils.ByteOffsets{
+			Start: positions[match.Index],
+			End:   positions[match.Index+match.Length],
+		})
+
+		match, err = sp.r.FindNextMatch(match)
+		if err != nil {
+			return nil, err
+		}
+	}
+
+	if sp.r.RightToLeft() {
+		// Matches are found from the last one to the first one
+		for i, j := 0, len(matches)-1; i < j; i, j = i+1, j-1 {
+			matches[i], matches[j] = matches[j], matches[i]
+		}
+	}
+
+	for _, m := range matches {
+		startByte := m.Start
+		endByte := m.End
 
 		if prev != startByte {
 			splits = append(splits, Capture{
@@ -57,11 +77,6 @@ func (sp *Regexp2SplitPattern) FindMatches(s string) ([]Capture, error) {
 			IsMatch: true,
 		})
 		prev = endByte
-
-		match, err = sp.r.FindNextMatch(match)
-		if err != nil {
-			return nil, err
-		}
 	}
 
 	if prev != len(s) {
-- 
2.43.0


From 5578c82f123a2911c813b58c2f9186f472f21946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:27 +0000
Subject: [PATCH 23/25] fix: an obsolete BPE merge never stands in for another
 of the same result

A queued merge was taken for current when the pair now at its place merges
to the same symbol, even at a higher rank.
---
 models/bpemodel/word.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/bpemodel/word.go b/models/bpemodel/word.go
index c5f35e6..294c489 100644
--- a/models/bpemodel/word.go
+++ b/models/bpemodel/word.go
@@ -122,7 +122,7 @@ func (w *Word) MergeAll(merges *MergeMap, dropout float64) {
 		right := (*w)[nextPos]
 
 		// Make sure we are not processing an expired queue entry
-		if m, ok := merges.Get((*w)[top.Pos].ID, right.ID); !ok || m.ID != top.ID {
+		if m, ok := merges.Get((*w)[top.Pos].ID, right.ID); !ok || m != top.MergeValue {
 			continue
 		}
 
-- 
2.43.0


From 3ee7688c651b41f2cd18c4ef6368559f40737073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:39 +0000
Subject: [PATCH 24/25] fix: merges files may have lines longer than 64 KiB

---
 models/bpemodel/mergemap.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/models/bpemodel/mergemap.go b/models/bpemodel/mergemap.go
index b0dde19..39aff72 100644
--- a/models/bpemodel/mergemap.go
+++ b/models/bpemodel/mergemap.go
@@ -8,6 +8,7 @@ import (
 	"bufio"
 	"fmt"
 	"github.com/nlpodyssey/gotokenizers/vocabulary"
+	"math"
 	"os"
 	"strings"
 )
@@ -52,6 +53,7 @@ func MergeMapFromFile(
 	}()
 
 	scanner := bufio.NewScanner(file)
+	scanner.Buffer(nil, math.MaxInt32) // lines can be of any length
 	for lineCount, rank := 1, 0; scanner.Scan(); lineCount++ {
 		line := scanner.Text()
 
-- 
2.43.0


From e08b2e55f49fd11c137959a0cf4218d73017caff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:16 +0000
Subject: [PATCH 25/25] fix: the symbols of a word stay linked after merging

---
 models/bpemodel/word.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/models/bpemodel/word.go b/models/bpemodel/word.go
index 294c489..459f90a 100644
--- a/models/bpemodel/word.go
+++ b/models/bpemodel/word.go
@@ -162,6 +162,14 @@ func (w *Word) MergeAll(merges *MergeMap, dropout float64) {
 		}
 		i++
 	}
+
+	// The remaining symbols have new positions
+	for i, symbol := range *w {
+		symbol.Prev, symbol.Next = i-1, i+1
+		if symbol.Next == w.Len() {
+			symbol.Next = -1
+		}
+	}
 }
 
 func (w *Word) removeSymbol(index int) {
-- 
2.43.0

