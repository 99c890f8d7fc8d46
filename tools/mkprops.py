#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text is easy to review)."""
import json
NS="normalizedstring/normalizedstring.go"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":hook}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Alignment integrity under any edit history",
"After any sequence of edits (filter, map, case change, trim, prepend, append, replace, transform) of a normalized string built from a text, every byte of the normalized text still converts to an original range that lies inside the original text, starts and ends on character boundaries of it, is the same for all bytes of one character, and never moves backwards along the text. The original text and its offsets are never changed by an edit, and no edit fails or panics.",
["inputs","histories"],"every input text, every edit history, every predicate/mapping/pattern passed to the edits",
"tests check a dozen fixed ASCII-heavy edits; the guarantee is about every history and every mix of 1-4 byte characters",
[NS],[("alignment bookkeeping while rebuilding the text",NS+" TransformRange"),("edit operations",NS+" Filter/Map/Trim*/Prepend/Append/Replace")],
["CoerceRangeToOriginal","GetOriginal","OriginalOffsets"])
p("C02","Removing and mapping characters keeps exact provenance",
"Filtering, trimming and mapping (including upper/lower-casing) produce exactly the kept or mapped characters in order, and each resulting character still converts to exactly the original range its source character had before the edit. Trimming removes exactly the leading and/or trailing Unicode white space asked for and nothing else.",
["inputs"],"every text, every keep-predicate, every character mapping, either side of trimming",
"tests remove single ASCII characters or spaces; offset arithmetic depends on the byte widths of every removed/kept character",
[NS],[("run-length removal counters",NS+" Filter"),("leading/trailing counters",NS+" TrimLeftRight, countLeadingSpaces, countTrailingSpaces"),("initial removal offset",NS+" TransformRange")],
["Get","CoerceRangeToOriginal"])
p("C03","Prepend, append and replace insert exactly, disturbing nothing else",
"Prepending, appending or replacing every match of a pattern yields exactly the expected text, leaves the original range of every character that was not replaced unchanged, and aligns inserted text with the neighbouring character (prepended: the first character; appended: the last one; replacement: the end of the matched text). Inserting an empty string at either end changes nothing, and on an empty text prepend and append do nothing.",
["inputs"],"every text, every inserted string, every pattern and match layout",
"tests insert ASCII into ASCII; multi-byte neighbours, repeated matches and size-changing replacements are not sampled",
[NS],[("Prepend/Append/Replace change lists",NS),("running offset over matches",NS+" Replace")],["Get","CoerceRangeToOriginal"])
p("C04","A transform rewrites exactly its range, per its change list",
"Applying a list of character changes to a range replaces exactly the text of that range by the listed characters and leaves text and alignment outside the range untouched. A range is one of the normalized text on character boundaries, or a non-empty range of the original text. A change of 0 inherits the alignment of the character it replaces, a change of 1 that of the character before it in the text being rewritten (or the empty range at the start of the text), a change of -N drops the N characters after the replaced one, and the initial offset counts removed characters.",
["inputs"],"every text, every range on character boundaries, every consistent change list",
"tests enumerate about twenty fixed change lists on two texts",
[NS],[("change-list interpreter",NS+" TransformRange, Transform")],["Get","CoerceRangeToOriginal"])
p("C05","Range conversion between the two texts is exact and total",
"Converting a non-empty range of the normalized text gives the span from the original start of its first byte to the original end of its last byte, converting a non-empty original range gives the normalized bytes whose non-empty original ranges lie inside it (an empty range, or unsuccessful, if all were removed), an empty range converts to itself, and reversed ranges are reported as unsuccessful. Fetching text by a range returns exactly the text at the converted range. A range outside the text it refers to, or one whose conversion falls outside the other text, is reported as unsuccessful when fetched, never by a panic or with text that is not there.",
["inputs","histories"],"every reachable normalized string and every pair of integer bounds of either kind",
"tests use seven ranges on one string; off-by-one and out-of-range bounds need every index pair",
[NS,"normalizedstring/range.go"],[("conversion",NS+" CoerceRangeToNormalized, CoerceRangeToOriginal"),("fetch",NS+" GetRange, GetOriginalRange")],["GetRange","GetOriginalRange","CoerceRangeTo*"])
p("C06","A slice keeps text, original and offsets consistent",
"Slicing by a range on character boundaries, any number of times, gives a normalized string whose text is exactly the text of the range, whose original text is exactly the root text at the offsets it reports, and whose characters convert to the same absolute original ranges as before slicing. A range off character boundaries, reversed or out of bounds is reported as unsuccessful, and slicing never panics or changes the sliced string.",
["inputs","histories"],"every reachable normalized string, every range of either kind, slices of slices",
"no test slices a string twice, nor by empty or out-of-bounds ranges",
[NS],[("shifted alignments and accumulated shift",NS+" Slice"),("boundary validation",NS+" rangeIsValid")],["Slice","OriginalOffsets","GetOriginal"])
p("C07","Splitting tiles the text as its delimiter behaviour says",
"Splitting a normalized string by a pattern returns the pieces, in order, that the delimiter behaviour prescribes (matches removed; isolated; each match merged with the unmatched text before it; or with the unmatched text after it; adjacent pieces of one kind joined): no other text is lost, duplicated or reordered. Each piece reports the original offsets of exactly its own text, and the split string itself is unchanged.",
["inputs","configurations"],"every text and normalization, every conforming pattern, all five behaviours",
"one text and one delimiter is tested per behaviour; the fold logic depends on every match/non-match layout",
[NS],[("per-behaviour folds",NS+" Split"),("piece extraction",NS+" Slice")],["Split"])
p("C08","Every split pattern covers its text with exact matches",
"For every text, the matches reported by a function, rune, string, regular-expression or inverted pattern are contiguous, ordered and cover the whole text on character boundaries. A piece is flagged as match exactly where the pattern matches (inverted: where it does not), maximal unmatched stretches are single pieces, and the empty text gives one empty piece.",
["inputs","configurations"],"every text, every rune predicate, every literal, regular expressions of each supported engine",
"tests run ASCII strings; offsets are byte based while both engines and predicates work on runes",
["splitpattern/func.go","splitpattern/rune.go","splitpattern/string.go","splitpattern/regexp.go","splitpattern/regexp2.go","splitpattern/invertedpattern.go"],
[("FindMatches of each pattern","splitpattern/*.go")],["FindMatches"])
p("C09","The inverse alignment is complete and consistent",
"For every normalized string reachable by edits and slices, asking for the original-to-normalized alignments returns exactly one entry per byte of the original text, and entry by entry it is the inverse of the forward alignment: bytes of a character that survived map to the normalized bytes aligned with it, removed bytes map to the empty range where they were removed. It never panics.",
["inputs","histories"],"every text and edit history",
"tests compare the list for fixed edits; runs, gaps and empty results combine freely",
[NS],[("group/gap reconstruction",NS+" OriginalAlignments")],["OriginalAlignments"])
p("C10","BERT normalization does exactly its four documented steps",
"With each combination of its options, BERT normalization of any text yields exactly: control characters, NUL and the replacement character dropped and white space turned into plain spaces (cleaning); a space on both sides of every character of the CJK ideograph blocks; non-spacing marks dropped; everything lower-cased. Every resulting character keeps the original range of the character it came from.",
["inputs","configurations"],"every text, all sixteen option combinations",
"tests cover one sentence per option; the classification is over all of Unicode and steps interact",
["normalizers/bertnormalizer/bertnormalizer.go"],[("cleanText, handleChineseChars, stripAccents","normalizers/bertnormalizer/bertnormalizer.go"),("chinese ranges","normalizers/bertnormalizer/bertnormalizer.go chineseCharacters")],["Normalize"])
p("C11","Lower-case, strip and sequence normalizers are faithful",
"The lower-case normalizer maps every character to its Unicode lower case and nothing else, the strip normalizer removes white space only from the configured sides, and a sequence runs its normalizers in order on the same string, stopping at and returning the first error. The lower-case and strip normalizers are idempotent.",
["inputs","configurations","fault_sequences"],"every text, every configuration, every position of a failing member",
"tests use ASCII words and one failing member",
["normalizers/lowercasenormalizer/lowercasenormalizer.go","normalizers/stripnormalizer/stripnormalizer.go","normalizers/sequencenormalizer/sequencenormalizer.go",NS],
[("Normalize","normalizers/*")],["Normalize"])
p("C12","Delimiter pre-tokenizers cut exactly at their delimiters",
"White-space-split, BERT, white-space (word/punctuation) and rune-delimiter pre-tokenization of any text give, in order, exactly the maximal pieces their rule defines: no delimiter inside a piece, BERT punctuation isolated one character each, words (letters, marks, digits, connectors) apart from other symbols, no empty piece, no other character lost. Each piece's offsets locate exactly its text in the original.",
["inputs"],"every text, every delimiter rune",
"tests use English sentences; Unicode white space and punctuation classes and adjacent delimiters are not covered",
["pretokenizers/whitespacesplitpretokenizer/whitespacesplitpretokenizer.go","pretokenizers/bertpretokenizer/bertpretokenizer.go","pretokenizers/whitespacepretokenizer/whitespacepretokenizer.go","pretokenizers/runedelimiterpretokenizer/runedelimiterpretokenizer.go"],
[("PreTokenize","pretokenizers/*")],["PreTokenize","GetOriginalByteSplits"])
p("C13","Byte-level pre-tokenization is reversible",
"Mapping the characters of all byte-level pieces back to bytes and concatenating them gives exactly the input text, with one leading space added when prefixing is enabled and the text is not empty and does not already start with white space. The byte-to-character mapping is one-to-one over all 256 bytes and yields no white space or control character, and each piece's offsets are those of the source text its bytes came from.",
["inputs","configurations"],"every text, prefixing on and off, different splitting regular expressions",
"tests decode three sentences; byte values and multi-byte characters split across changes are not exhausted",
["pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go"],[("byteToRune table","pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go init"),("byte expansion","pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go PreTokenize")],["PreTokenize"])
p("C14","Meta-space pre-tokenization replaces spaces and cuts before them",
"The concatenated meta-space pieces are exactly the input with every space replaced by the meta-character, preceded by one meta-character when prefixing is enabled and the text does not already start with it. Every piece holds at most one meta-character, only as its first character, and the pieces' original offsets are ordered and cover the original text.",
["inputs","configurations"],"every text, every meta-character, prefixing on and off",
"two ASCII sentences are tested",
["pretokenizers/metaspacepretokenizer/metaspacepretokenizer.go",NS],[("prepend, replace, split","pretokenizers/metaspacepretokenizer/metaspacepretokenizer.go PreTokenize")],["PreTokenize"])
p("C15","WordPiece is greedy longest-match-first and tiles the word",
"For every vocabulary and word, WordPiece returns the tokens obtained by repeatedly taking the longest vocabulary entry that starts at the current position (with the continuation prefix after the first): their offsets tile the word exactly and their value and id agree with the vocabulary; the empty word gives no token. If some position has no entry, or the word has more characters than the limit, the result is the single unknown token covering the whole word, or an error if the unknown token is not in the vocabulary.",
["inputs","configurations"],"every word, vocabulary, prefix and length limit",
"six ASCII words against one vocabulary are tested",
["models/wordpiecemodel/wordpiecemodel.go"],[("longest-match loop","models/wordpiecemodel/wordpiecemodel.go Tokenize")],["Tokenize"])
p("C16","BPE tokens tile the word and agree with the vocabulary",
"For every word, the tokens returned by a BPE model have consecutive offsets starting at 0, each token's value is the vocabulary entry of its id, and each token's offsets locate in the word the characters it stands for. When every character is in the vocabulary or an unknown token is configured, the offsets cover the whole word.",
["inputs","configurations"],"every word, vocabulary, merge table and option combination",
"one ASCII word with every character known is tested",
["models/bpemodel/bpemodel.go","models/bpemodel/word.go"],[("symbol lengths","models/bpemodel/bpemodel.go mergeWord, wordToTokens"),("length accumulation","models/bpemodel/word.go MergeWith, MergeAll")],["Tokenize"])
p("C17","BPE applies merges by rank, then position, to exhaustion",
"Without dropout, BPE tokenization equals repeatedly applying the applicable merge of lowest rank (leftmost first among equal ranks) until no adjacent pair of tokens has a merge rule. This holds whatever order merges become available or obsolete in.",
["inputs","configurations"],"every symbol sequence and every consistent merge table (a merged id stands for the concatenation of its parts)",
"one word and one table are tested; stale queue entries, repeated symbols and ties arise only for particular tables",
["models/bpemodel/word.go","models/bpemodel/wordmerge.go"],[("priority queue with expiry","models/bpemodel/word.go MergeAll"),("ordering","models/bpemodel/wordmerge.go Less")],["Tokenize"])
p("C18","BPE dropout only ever skips merges",
"With dropout, every possible outcome of the random draws gives tokens that tile the word and are each built by valid merges from the word's characters, and tokenization terminates whenever merges are not always dropped. With dropout 1 no merge is ever applied.",
["inputs","schedules"],"every word, merge table and every sequence of random draws",
"tests draw a few random runs and only check the number of tokens",
["models/bpemodel/word.go"],[("skip list and re-insertion","models/bpemodel/word.go MergeAll")],["Tokenize"])
p("C19","BPE unknown tokens, prefix and suffix follow the configuration",
"Before merging, each character is looked up with the continuing-subword prefix if it is not the first one and with the end-of-word suffix if it is the last one. Characters not found become unknown tokens, one per character or one per maximal run if fusing is enabled, or an error if the unknown token is not in the vocabulary, and they never absorb or reorder known characters.",
["inputs","configurations"],"every word, vocabulary, unknown-token, prefix, suffix and fusing setting",
"no test configures an unknown token, prefix or suffix",
["models/bpemodel/bpemodel.go"],[("mergeWord","models/bpemodel/bpemodel.go")],["Tokenize"])
p("C20","The vocabulary is a two-way association under any history",
"After any sequence of additions, starting empty or from a loaded file with distinct ids, every term that was added is found with an id, looking up that id gives the term back, no two terms share an id, and re-adding a term changes nothing. Ids of terms added to an empty vocabulary are consecutive from 0, the size is the number of distinct terms, and lookups of absent terms or ids report not found.",
["inputs","histories"],"every sequence of terms (repeated or not), every loaded table",
"tests load one file and never add after loading or repeat a term",
["vocabulary/vocabulary.go"],[("AddTerm, FromJSONFile","vocabulary/vocabulary.go")],["AddTerm","GetID","GetString","Size"])
p("C21","Merge files are loaded rank by rank or rejected",
"Loading a merges file maps the two terms on the k-th data line to rank k and to the id of the concatenated term (minus the configured prefix length of the second), skipping version lines. A line that is malformed, or names a term outside the vocabulary, makes loading fail with an error naming the line; no content makes it panic.",
["inputs","configurations"],"every file content, vocabulary and prefix length",
"tests load one well-formed file",
["models/bpemodel/mergemap.go"],[("MergeMapFromFile","models/bpemodel/mergemap.go")],["MergeMapFromFile"])
p("C22","Pre-tokenized strings process each open split once, in order",
"Splitting, normalizing and tokenizing a pre-tokenized string call the supplied function exactly once, in order, on each split that has no tokens yet, and leave splits with tokens untouched. Empty results of a split are dropped and all others kept in order, a failing function's error is returned without changing the list of splits, and the normalized byte splits tile the concatenated text.",
["inputs","histories","fault_sequences"],"every splitting result, every mix of tokenized and open splits, every failing position",
"the package has no tests of its own",
["pretokenizedstring/pretokenizedstring.go"],[("Split/Normalize/Tokenize/Get*Splits","pretokenizedstring/pretokenizedstring.go")],["Split","Normalize","Tokenize","GetNormalizedByteSplits"])
p("C23","Encodings list every token once with original offsets",
"Building an encoding from a tokenized string yields, in order, one entry per token in every parallel list (id, type id, token, word, offsets, masks), with special-token mask 0, attention mask 1, the split's index (or the given word index if not negative) as word, and offsets that convert the token's (not empty) normalized range to the original text, always inside it. An untokenized split makes it fail with an error, and no tokens at all give an empty encoding.",
["inputs","histories"],"every split layout, normalization, token range and word/type index",
"the packages involved have no tests",
["pretokenizedstring/pretokenizedstring.go","encodings/encodings.go"],[("IntoEncoding","pretokenizedstring/pretokenizedstring.go"),("EncodingFromEncodableTokens","encodings/encodings.go")],["IntoEncoding"])
p("C24","A whole pipeline keeps offsets pointing at the source text",
"Running a normalizer, a pre-tokenizer and a model over any text yields tokens in text order whose offsets lie inside the original text on character boundaries. Where no characters were rewritten, the original text at a token's offsets is the token's own text, and every non-delimiter character of the text is covered.",
["inputs","configurations"],"every text through representative normalizer, pre-tokenizer and model combinations",
"no test runs the components together",
["normalizers","pretokenizers","models","pretokenizedstring/pretokenizedstring.go"],[("IntoEncoding offset conversion","pretokenizedstring/pretokenizedstring.go")],["IntoEncoding"])
p("C25","Byte positions convert to character positions exactly",
"A byte index is reported as character boundary exactly when it is 0, the length, or the first byte of a character, for any index including negative and too large ones. Converting byte offsets on character boundaries to character offsets gives the number of characters before each end, for every range including empty ones at the end.",
["inputs"],"every text and every index or offset pair",
"the converter has no test; boundaries are tested at seven indices",
["strutils/strutils.go"],[("IsRuneBoundary, BytesToRuneOffsetConverter","strutils/strutils.go")],["IsRuneBoundary","Convert"])
p("C26","Tokenizing and matching never modify shared configuration",
"Tokenizing with a model, finding matches with a pattern, and pre-tokenizing or normalizing other strings leave the model, vocabulary, merge table, pattern and other strings as they were: the same input gives the same result before and after any other calls (dropout aside). Results of separate calls never share mutable state, and one instance can be used by several goroutines.",
["inputs","histories","schedules"],"every input pair and call order",
"no test calls a component twice on one instance with different inputs",
["models/bpemodel/bpemodel.go","models/wordpiecemodel/wordpiecemodel.go","splitpattern","pretokenizers"],[("no mutable state in components","models, splitpattern, pretokenizers, normalizers")],["Tokenize","FindMatches","PreTokenize"])
p("C27","Text that is not valid UTF-8 is handled without corruption",
"Any byte string, valid UTF-8 or not, can be normalized, split, pre-tokenized and tokenized without a panic, and all reported offsets stay ordered and inside the original text. Each invalid byte counts as one character of one byte. Only an edit that passes over it (filter, map, trim) may rewrite it, as the replacement character aligned with that byte; everything else keeps it as it is.",
["inputs"],"every byte string",
"no test contains an invalid byte, although Go strings may hold any bytes",
[NS,"splitpattern","pretokenizers","models","strutils/strutils.go"],[("rune decoding widths",NS+" FromString, TransformRange; splitpattern/func.go, regexp2.go")],["FromString","Split","PreTokenize","Tokenize"])
p("C28","A word stays a chain of symbols while it is built and merged",
"After any sequence of adding symbols to a BPE word and merging it, with any tables and dropout, the word holds exactly the symbols that the additions and merges give, in order: lengths add up, each symbol names the positions of the one before and the one after it (-1 at the ends), and a word that was merged before can be added to and merged again like any other. Nothing panics.",
["inputs","histories"],"every history of additions and merges",
"tests build a word of three symbols and merge one word once",
["models/bpemodel/word.go"],[("links between symbols","models/bpemodel/word.go Add, MergeWith, MergeAll")],["Add","MergeAll","MergeWith","Len"])
p("C29","A cache of words never changes an answer",
"Asking a word cache for a key gives either nothing or the word last set under exactly that key, after any history and for any capacity; capacity zero never gives anything, and asking for several keys gives one answer for each, in order. BPE models that differ in their cache capacity alone return the same tokens for every word, whatever was tokenized before.",
["inputs","histories","configurations"],"every history of words and keys, every capacity",
"no test stores anything in a cache or tokenizes two words with one model",
["models/bpemodel/wordcache.go","models/bpemodel/bpemodel.go"],[("cache","models/bpemodel/wordcache.go"),("use of the cache","models/bpemodel/bpemodel.go tokenizeWithCache")],["Get","Set","GetValues","SetValues","Tokenize"])
p("C30","A pattern or model that fails is reported and spoils nothing",
"When a pattern fails on a text (a regular expression that exceeds its match time, or a pattern of the caller), finding its matches or those of its inverse, splitting, replacing and pre-tokenizing with it return an error, not the matches found until then, and leave the text, its alignments and the list of splits as they were (save for the space the byte-level pre-tokenizer adds). A model that cannot tokenize a word fails on it every time and on no other word. The same operation repeated with a working pattern or model gives the ordinary result.",
["inputs","configurations","fault_sequences"],"every text, every point at which the pattern or model fails",
"no test has a pattern that fails; a timeout needs particular texts and may come after any number of matches",
["splitpattern","pretokenizers/whitespacepretokenizer/whitespacepretokenizer.go","pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go","pretokenizedstring/pretokenizedstring.go",NS],[("errors of FindMatches","splitpattern/regexp2.go, splitpattern/invertedpattern.go"),("errors of Split and Replace",NS+" Split, Replace"),("errors of split functions and models","pretokenizedstring/pretokenizedstring.go Split, Tokenize")],["FindMatches","Split","Replace","PreTokenize","Tokenize"])
import os
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
