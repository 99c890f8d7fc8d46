#!/usr/bin/env python3
"""Writes the bounds, what lies outside them and the assumptions of each check into checks.json."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c=json.load(open(V+'/checks.json'))
COMMON="Texts longer than the bound other than those with concrete filler around the symbolic part; behaviour of the Go runtime below the SSA (memory, scheduler)."
UN="Predicates and character mappings are uninterpreted but pure functions (the same character always gives the same answer)."
RX="The regular-expression engines (Go regexp, regexp2 v1.4.0) are executed as they are and taken as the definition of what an expression matches; expressions on which regexp2 itself panics or does not terminate are left out."
UNI="Unicode tables are those of the Go release the check is built with."
VF="File reads return exactly the symbolic bytes of the harness, or an error; partial reads and concurrent changes of the file are left out."
def b(i,bounds,outside=COMMON,*assume):
    c[i].update(bounds=bounds,outside=outside,assumptions=list(assume))
b("C01","histories of 1 to 4 edits of every kind (filter, map, case, trim, prepend, append, replace, transform); 1 edit on all texts of <=3 characters of any width, 2-4 edits on shorter ones; change lists of <=3 entries; edits of slices; long texts with 0..255 (thorough ..1023) filler characters around the symbolic part.",COMMON+" Histories of 5 edits and more.",UN)
b("C02","filter on all texts of <=4 (thorough 5) characters with an arbitrary predicate, map on <=3 (4) with an arbitrary mapping, upper/lower case on <=2 (3) of every Unicode scalar value, trimming on <=4 (5) characters; slices and edited texts; long texts with filler.",COMMON,UN,UNI)
b("C03","texts of <=3 (thorough 4) characters of any width, inserted strings of <=2 (3) characters, replacement of every layout of <=4 (5) matches including empty ones, literals, failing patterns; edited texts; long texts with filler.",COMMON+" Inserted text that is not valid UTF-8.",UN)
b("C04","texts of <=3 (thorough 4) characters, every range of either kind, every consistent list of <=2 changes (3-4 for narrow characters) with change values 0, 1 and -N, any initial offset; two transforms in a row; ranges with arbitrary integer bounds; long texts with filler.",COMMON+" Change lists that do not fit their range.")
b("C05","all texts of <=3 characters after one of six kinds of edits (arbitrary predicate/mapping), slices of them, all integer bounds in +-2^40 of either kind; long texts with filler.",COMMON,UN)
b("C06","all texts of <=3 (thorough 4) characters after one of six kinds of edits, 2 (3) levels of slicing by either kind of range, edits between and after, bounds in +-2^40; long texts with filler.",COMMON,UN)
b("C07","every capture layout (including empty captures) of all texts of <=4 (thorough 5) characters, of up to 6 (9) narrow captures, arbitrary predicates as pattern, five behaviours, a second split of the pieces, failing patterns; long texts with filler.",COMMON+" Patterns whose captures do not cover the text (outside the documented contract).",UN)
b("C08","function and rune patterns on all texts of <=4 (thorough 5) characters with arbitrary predicates; literals of <=2 characters; a family of expressions of both engines, right-to-left ones included, on all texts of <=3 (4) characters; inversions, twice; long texts with filler.",COMMON+" Expressions outside the family.",UN,RX)
b("C09","all texts of <=3 (thorough 4) characters after one of six kinds of edits, removals on 5 (7) characters, histories of two edits, replacements, slices; long texts with filler.",COMMON,UN)
b("C10","every Unicode scalar value under all sixteen option sets, alone and between neighbours of each class, 2-3 characters for single steps, texts edited before, long texts with filler.",COMMON,UNI)
b("C11","every Unicode scalar value, 2 (thorough 3) cased characters, strip on <=3 (4) characters and runs of spaces, sequences of <=4 (6) members with a failing one at every position, nested sequences, texts edited before.",COMMON,UNI)
b("C12","all texts of <=4 (thorough 5) characters, every scalar value between letters, arbitrary delimiter, custom expressions of the white-space pre-tokenizer, texts edited before, chains of two pre-tokenizers, splits with tokens; long texts with filler.",COMMON,RX,UNI)
b("C13","all texts of <=3 (thorough 4) characters and every pair of bytes, every scalar value, three expressions and the default one on shorter texts, contractions, edited texts, several splits; long texts with filler.",COMMON,RX)
b("C14","all texts of <=3 (thorough 4) characters, every meta-character, prefixing on and off, runs of spaces, the default configuration, edited texts, several splits; long texts with filler.",COMMON)
b("C15","vocabularies of 3 symbolic terms and words of <=3 (thorough 4) characters, plain and nested vocabularies on longer words, every length limit in +-2^40, every scalar value, unknown token absent or present, repeated calls; long words.",COMMON)
b("C16","symbolic vocabularies, words of <=4 (thorough 5) characters, every scalar value, dropout, unknown token absent or present, repeated calls; long words.",COMMON)
b("C17","words of <=4 (thorough 5) symbols with a few symbolic merge rules of arbitrary ranks and ids (ties, overlaps, obsolete rules, results of one id), directly and through the model; long words with filler.",COMMON+" Merge tables with more rules than stated in the harness.")
b("C18","every outcome of every draw (16-bit fractions) on words of <=4 (thorough 5) symbols with overlapping merges of arbitrary ranks, dropout values between 0 and 1 and exactly 1, directly and through the model.",COMMON,"Random draws are independent arbitrary values; a run on which merges are dropped for ever is left out.")
b("C19","words of <=4 (thorough 5) characters, prefix and suffix of <=2 characters, fusing on and off, unknown token absent, present or missing from the vocabulary, every scalar value, with merges, repeated calls; long words.",COMMON)
b("C20","histories of <=4 (thorough 5) additions of symbolic terms (<=2 characters, and wider ones), empty or loaded start with arbitrary distinct ids including -1 and 2^40, lookups of any term or id, malformed files; long concrete histories, two vocabularies.",COMMON,VF)
b("C21","all file contents of <=4 (thorough 5) bytes, several lines with symbolic fields, version lines at any place, any prefix length >= 0, missing file, two loads; long files.",COMMON+" Negative prefix lengths.",VF)
b("C22","all texts of <=3 (thorough 4) characters, every splitting of them (empty pieces included), 2-4 operations with a failing call at every position, texts edited before, many splits.",COMMON)
b("C23","every layout of a few splits with tokens of any range in their split, of edited texts, any ids, type ids and word index (+-2^40), untokenized and empty splits, lists of encodable tokens; many tokens.",COMMON+" Tokens with an empty or out-of-text range.",UN)
b("C24","BERT+WordPiece, words+WordPiece, white space+BPE, meta-space, byte-level, two pre-tokenizers, affixes and unknown tokens, on 2-5 arbitrary characters; long texts with filler.",COMMON,RX,UNI)
b("C25","all texts of <=n characters (n=3..5) of any width, every index in +-2^40, every pair of character boundaries, repeated calls; long texts with filler.",COMMON)
b("C26","every component called on arbitrary texts of 1-3 characters before and after a call on another text; every write during a call to memory reachable from the component or package variables is reported; separate results changed in place.",COMMON+" Interleavings are reduced to the absence of writes to shared memory without a lock; locks inside regexp and regexp2 are trusted.",UN,RX)
b("C27","all byte strings of <=3 (thorough 4) bytes through every edit, pattern, pre-tokenizer and model; one symbolic byte run inside long filler.",COMMON+" Inserted strings, literals and expressions that are themselves not valid UTF-8.",RX)
b("C28","histories of <=5 (thorough 6) additions and merges with two tables of overlapping rules, with and without dropout and every outcome of its draws on <=4 (5) symbols; any symbols and two arbitrary rules on <=3 (4) symbols; long words with filler.",COMMON+" Symbols of no length.","Random draws are independent arbitrary values; a run on which merges are dropped for ever is left out.")
b("C29","histories of <=2 (thorough 3) operations on caches of capacity -1 to 100 with three keys, equal or not; keys that look alike; long keys, more keys than fit; models of capacity -1, 1, 2 and 10000 against 0 on histories of <=4 (5) words.",COMMON+" Vocabularies and merges changed after a word was tokenized; words changed after they were stored.")
b("C30","an expression that exceeds its match time on a run of x, with <=3 (thorough 5) arbitrary characters around it, all behaviours, inverted twice; three splits with the failing one anywhere; patterns of the caller failing on arbitrary characters of texts of <=2 (3); words of <=1 (2) characters on models without an unknown token or a merged term.",COMMON+" Match times that are not over before the match begins (a clock that goes on).",RX,UN)
for i in c:
    if i not in("C18","C30"):
        c[i]["bounds"]=c[i]["bounds"].rstrip()+" A few shapes of over 65 536 (thorough 131 072) bytes, characters or entries with arbitrary ones among them."
DEEP={"C01":"36 (thorough 72)","C03":"36 (90)","C05":"12 (30)","C07":"12 (30), then three splits of splits","C09":"36 (72)"}
for i,n in DEEP.items():
    c[i]["bounds"]+=" Fixed histories of "+n+" edits on symbolic texts."
for i in("C15","C16","C17","C18","C19","C21","C28"):
    c[i]["bounds"]+=" Ids of any size and sign (one arbitrary in +-2^40 beside five families)." if i in("C15","C16","C19") else " Ids and ranks that differ in their high bits or signs only."
c["C06"]["bounds"]+=" 6 (8) levels of slices of fixed ends."
c["C08"]["bounds"]+=" Up to 9 inversions of a pattern."
c["C11"]["bounds"]+=" Up to 70 members, flat or nested."
c["C26"]["bounds"]+=" 70 (300) calls of one component."
c["C22"]["bounds"]+=" 12 (30) operations, one of them failing."
json.dump(c,open(V+'/checks.json','w'),indent=1,ensure_ascii=False); open(V+'/checks.json','a').write("\n")
