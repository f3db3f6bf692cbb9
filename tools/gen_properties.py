#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay readable)."""
import json, os
ALL = ["src/utf8.rs","src/utf16_be.rs","src/utf16_le.rs","src/utf32_be.rs","src/utf32_le.rs",
       "src/big5_whatwg.rs","src/shiftjis_whatwg.rs","src/single_byte.rs"]
GEN = ["src/generated/single_byte/*.rs.inc","src/generated/whatwg/*.rs.inc"]
P = []
def p(id, title, st, over, qt, why, files, mech, obs, state=None):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=qt), why_tests_cant=why,
      anchors=dict(files=files, **({"state":state} if state else {}),
        mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=obs, hook_needed=None)))

CUR = [dict(name="input_i / output_i", meaning="consumed-input and produced-output cursors of one call", where="every encode_from_str/decode_to_str")]

p("C01","Every conversion call returns, within bounds",
  "For every input, every output buffer size (including zero) and either value of the end-of-input flag, each encode or decode call of every encoding returns without panicking, hanging or touching memory outside the two slices it was given. The returned slice is a prefix of the caller's buffer, the consumed count never exceeds the input length, the reported number of written bytes never exceeds the buffer, and every error range is a non-empty range inside the input.",
  ["inputs"],"all inputs x all buffer sizes x both end flags x all 38 encodings",
  "Tests call with 64..4096-byte buffers on random data (512 cases) and never look at buffer bounds; index arithmetic on lead/trail bytes and on the cursors is only sampled.",
  ALL+GEN,[("cursor bounds tests before each write","each codec loop"),("table index guards","big5_whatwg/shiftjis_whatwg decode")],
  ["return values, panics, memory around both slices"],CUR)
p("C02","Decoded text is always valid UTF-8",
  "Whatever bytes are decoded, in whatever buffer, the returned text is well-formed UTF-8, and so are the bytes an error reports as already written. No decoder ever lets an ill-formed sequence, surrogate or out-of-range value through into the text, nor cuts a character in half at the end of a short buffer.",
  ["inputs"],"all byte inputs x buffer sizes x end flags x all 38 decoders",
  "The result is produced with unchecked conversions, so a violation is silent undefined behaviour; the random-byte tests discard the result.",
  ALL,[("unchecked str construction justified by the copy logic","every decode_to_str"),("surrogate arithmetic","utf16_*::decode_to_str"),("valid_up_to + copy_len","utf8::decode_to_str")],
  ["bytes of the returned &str; buffer prefix after an error"])
p("C03","Bounded encoding is exact, whole and maximal",
  "When an encode call succeeds, the bytes it returns are exactly the encoding of the consumed part of the text: whole characters only, ending at a character boundary, and valid in the target encoding on their own. The call never stops early: the next whole character (or composed pair) would not have fitted in the remaining buffer, unless the rest of the text must wait for more input.",
  ["inputs"],"all texts x all buffer sizes x all encoders",
  "Unit tests use a handful of buffer sizes on two sample strings; the cursor-to-boundary correction depends on the width of every character and on where the buffer ends.",
  ALL,[("buffer room tests","encode loops"),("char-boundary fix-up of the consumed count","end of each encode_from_str"),("copy_len","utf8.rs")],
  ["(slice, consumed) of encode calls"],CUR)
p("C04","Bounded decoding is exact, whole and maximal",
  "When a decode call succeeds, the text it returns is exactly the decoding of the consumed input bytes, made of whole characters. The call never stops early: the next character would not have fitted in the remaining buffer, unless the remaining input is an incomplete sequence or (with less than four bytes of room) an invalid one.",
  ["inputs"],"all byte inputs x all buffer sizes x both end flags x all decoders",
  "Unit tests use a few buffer sizes on two sample strings; off-by-one room tests only show at particular combinations of character width and remaining room.",
  ALL,[("room tests before copying","decode loops"),("input_i += unit length","decode loops")],
  ["(text, consumed) of decode calls"],CUR)
p("C05","Unicode decoders accept exactly well-formed text",
  "The UTF-8, UTF-16 (BE, LE) and UTF-32 (BE, LE) decoders turn every well-formed code unit sequence into exactly the Unicode scalar values it encodes, and report an error for every ill-formed one: overlong, truncated or stray UTF-8, unpaired surrogates, values above U+10FFFF and surrogate values in UTF-32.",
  ["inputs"],"all byte sequences, in any context",
  "The space of ill-formed sequences is far larger than the dozen error tests and 512 random buffers, which practically never contain near-valid sequences.",
  ["src/utf8.rs","src/utf16_be.rs","src/utf16_le.rs","src/utf32_be.rs","src/utf32_le.rs"],
  [("from_utf8 + truncation test","utf8.rs"),("surrogate masks","utf16_*.rs"),("char::from_u32","utf32_*.rs")],
  ["text and verdict of decode calls"])
p("C06","Unicode encoders emit the exact encoding form",
  "For every text, the UTF-8, UTF-16 and UTF-32 encoders never fail and emit precisely the code units the Unicode standard assigns to each scalar value, in the byte order of the module, with no byte order mark added or removed.",
  ["inputs"],"all 1,112,064 scalar values, alone and in context",
  "Tests encode two Japanese/emoji strings; random tests only check round trips, which two cooperating bugs can satisfy.",
  ["src/utf8.rs","src/utf16_be.rs","src/utf16_le.rs","src/utf32_be.rs","src/utf32_le.rs"],
  [("surrogate split","utf16_*.rs"),("to_be_bytes/to_le_bytes","utf16_*/utf32_*")],["bytes of encode calls"])
p("C07","Single-byte encodings follow their published tables",
  "For each of the 31 single-byte encodings and every byte value, decoding yields exactly the character the published mapping table assigns, or an error where the table has no entry. For every Unicode character, encoding yields exactly that byte, or an error when no byte maps to it, and this does not depend on neighbouring characters.",
  ["inputs"],"31 encodings x 256 bytes x 1,112,064 characters, in all two-character contexts of encodable characters",
  "Only ASCII, Latin-1 and ISO-8859-7 have any test; the other 28 tables, and the sortedness that binary search needs, are untested.",
  ["src/single_byte.rs","src/generated/single_byte/*.rs.inc","encoding_tables/single_byte/ascii_ext/*.txt"],
  [("DECODE_TABLE / ENCODE_TABLE + binary search","src/generated/single_byte"),("module to table wiring","src/single_byte.rs")],
  ["decode of each byte, encode of each char"])
p("C08","Big5 follows the WHATWG index and trail-byte rules",
  "Decoding Big5 maps ASCII bytes to themselves and each two-byte code to the character (or, for four codes, the base letter plus combining mark) of the WHATWG Big5 index, and rejects all other bytes and pairs. Encoding maps every character of the index, and the four base-plus-mark pairs as a unit, to a code that decodes back to it - the one WHATWG selects among duplicates - and rejects every other character.",
  ["inputs"],"all one- and two-byte inputs, all characters, all pairs of encodable characters",
  "The table test covers each valid code once in one large buffer separated by newlines; invalid pairs, unencodable characters, and adjacency (including the four composed pairs) are not enumerated.",
  ["src/big5_whatwg.rs","src/generated/whatwg/big5_whatwg_tables.rs.inc","encoding_tables/whatwg/index-big5.txt"],
  [("pointer arithmetic","decode_to_str"),("map_grapheme","encode_from_str"),("tables","generated")],["text/bytes/verdict"])
p("C09","Shift JIS follows the WHATWG index and special cases",
  "Decoding Shift JIS maps bytes 00-80, half-width katakana bytes, index codes and the private-use rows exactly as the WHATWG decoder does and rejects every other byte or pair. Encoding follows the WHATWG encoder, including its substitutions for U+00A5, U+203E and U+2212 and its preferred code among duplicates, additionally maps U+E000-U+E757 back to the private-use rows, and rejects every other character.",
  ["inputs"],"all one- and two-byte inputs, all characters, all pairs of encodable characters",
  "Table tests cover each index code once; the private-use range, half-width range ends, special cases next to buffer ends, and all rejected inputs are only spot-checked.",
  ["src/shiftjis_whatwg.rs","src/generated/whatwg/shiftjis_whatwg_tables.rs.inc","encoding_tables/whatwg/index-jis0208.txt"],
  [("special cases 1-5","encode_from_str/decode_to_str"),("pointer arithmetic","decode_to_str"),("tables","generated")],["text/bytes/verdict"])
p("C10","Encode errors pinpoint the first unencodable character",
  "Encoding fails only at a character the target encoding cannot represent, and then reports the first such character, its exact byte range in the input, and the exact number of bytes written, with everything before it already encoded at the start of the buffer. It may defer the error to the next call only when fewer than four bytes of output room remain.",
  ["inputs"],"all texts with an unencodable character at any position, all buffer sizes",
  "Two error tests per encoding with the bad character at offsets 0 and 6.",
  ["src/single_byte.rs","src/big5_whatwg.rs","src/shiftjis_whatwg.rs"],
  [("EncodeError construction","encode loops")],["EncodeError fields and buffer prefix"],CUR)
p("C11","Decode errors pinpoint the first invalid sequence",
  "Decoding fails only at an invalid or (at end of input) truncated sequence, and then reports the first one with an invalid-data cause, its exact byte range, and the exact number of bytes written, with everything before it already decoded at the start of the buffer; deferral to the next call is allowed only with fewer than four bytes of room. The range is the ill-formed unit: one byte for single-byte encodings; for Big5 and Shift JIS the lead byte, plus its trail byte when that is not ASCII; the unpaired surrogate in UTF-16; the four-byte unit in UTF-32; in UTF-8 up to the next byte that can start a character; and the whole remainder when truncated at end of input.",
  ["inputs"],"all byte inputs containing an invalid sequence at any position, all buffer sizes, both end flags",
  "A dozen sample errors per encoding; the interplay of error position, chunk end and remaining room is not enumerated.",
  ALL,[("DecodeError construction","decode loops"),("error end scan","utf8.rs"),("ascii-trail rule","big5/shiftjis")],["DecodeError fields and buffer prefix"],CUR)
p("C12","Decoding is independent of chunking and buffer sizes",
  "However the input bytes are split into chunks (even inside a character), and whatever sequence of output buffer sizes is used, a client that appends new chunks to the unconsumed bytes, and skips the reported range on errors, obtains the same text and the same set of rejected bytes at the same places as from any other split, including byte-at-a-time and one-shot decoding.",
  ["histories","inputs"],"all inputs x all chunk splits x all sequences of buffer sizes (client histories)",
  "Tests decode in one chunk with one buffer; the number of histories is exponential in the input length.",
  ALL,[("incomplete-tail handling with the end flag","decode loops"),("consumed count","decode loops")],["whole streaming sessions"],CUR)
p("C13","Encoding is independent of chunking and buffer sizes",
  "However the text is split into chunks at character boundaries, and whatever sequence of output buffer sizes is used, a client that appends new chunks to the unconsumed text, marks only the last one as final, and skips unencodable characters on errors, obtains the same bytes and the same rejected characters as one-shot encoding; in particular the composed Big5 letters survive a split between base letter and mark.",
  ["histories","inputs"],"all texts x all chunk splits x all sequences of buffer sizes",
  "Tests encode in one chunk with at most one small buffer; histories are not explored.",
  ALL,[("is_end look-ahead","big5_whatwg::encode_from_str"),("consumed count","encode loops")],["whole streaming sessions"],CUR)
p("C14","A four-byte buffer always makes progress",
  "With an output buffer of at least four bytes, every call on non-empty final input (end flag set, or an encoder without one) either consumes at least one byte or returns an error, so a client loop always terminates. A successful call that still has four bytes of room leaves nothing unconsumed, except, without the end flag, an incomplete tail: at most three bytes when decoding, one character when encoding Big5.",
  ["histories","inputs"],"all inputs, all buffer sizes of at least four, all points of a streaming session",
  "A stuck session is an infinite loop at the client; tests never assert progress.",
  ALL,[("break conditions","codec loops")],["consumed counts"])
p("C15","Text survives encoding and decoding unchanged",
  "For every encoding, any text that encodes without error decodes back, with no error, to the identical text - in every context, across any buffer boundaries. The only exceptions are the three substitutions the WHATWG Shift JIS encoder prescribes (U+00A5 to 5C, U+203E to 7E, U+2212 like U+FF0D).",
  ["inputs"],"all texts x all 38 encodings",
  "Round-trip tests exist for 8 encodings with printable random strings; 30 encodings, including both multi-byte ones, have none.",
  ALL+GEN,[("mutually inverse tables","generated"),("duplicate selection","encoding_tables generators")],["decode(encode(text))"])
p("C16","Decoded text re-encodes to the same bytes",
  "For UTF-8, UTF-16, UTF-32 and the single-byte encodings, any bytes that decode without error re-encode to the identical bytes. For Big5 and Shift JIS, where several codes share a character, the decoded text always re-encodes without error to bytes that decode to the same text.",
  ["inputs"],"all decodable byte sequences x all 38 encodings",
  "Byte-side round trips are tested only for ASCII, Latin-1 and ISO-8859-7 random data.",
  ALL+GEN,[("mutually inverse tables","generated")],["encode(decode(bytes))"])
p("C17","Skip-and-resume recovers all well-formed text",
  "For UTF-8, UTF-16, UTF-32 and the single-byte encodings, a client that repeatedly skips the reported error range and resumes decoding always terminates and obtains every well-formed character of the input, in order, each exactly once; the skipped ranges are disjoint and cover exactly the ill-formed bytes.",
  ["inputs","histories"],"all byte inputs with any number of errors, any buffer size of at least four",
  "No test continues after an error.",
  ["src/utf8.rs","src/utf16_be.rs","src/utf16_le.rs","src/utf32_be.rs","src/utf32_le.rs","src/single_byte.rs"],
  [("error range end","decode_to_str")],["skip-and-resume sessions"])
p("C18","Calls are independent of history, placement and threads",
  "The result of a call is a function of its input, buffer size and end flag only: it does not depend on which calls were made before, on the previous contents, alignment or address of the buffers, or on other threads converting at the same time.",
  ["histories","schedules","inputs"],"all call histories and all interleavings of concurrent calls",
  "Tests make isolated calls; hidden shared state (caches, scratch buffers) only shows for particular orders or interleavings.",
  ALL,[("no mutable statics; all scratch on the stack","whole crate")],["results of the same call in different histories/schedules"])
p("C19","Big- and little-endian variants mirror each other",
  "The little-endian UTF-16 and UTF-32 codecs behave exactly like the big-endian ones on input with the bytes of every code unit swapped: same text, same consumed counts, same errors and ranges when decoding, and byte-swapped but otherwise identical output when encoding, for every buffer size and end flag.",
  ["inputs"],"all inputs x buffer sizes x end flags (inputs that are whole code units)",
  "The two variants are separate copies of the code tested with separate samples.",
  ["src/utf16_be.rs","src/utf16_le.rs","src/utf32_be.rs","src/utf32_le.rs"],
  [("from_be/le_bytes, to_be/le_bytes","utf16_*/utf32_*")],["pairs of calls"])
p("C20","The end flag only decides the fate of an incomplete tail",
  "Passing the end flag or not gives identical results unless the input ends in an incomplete sequence. Without the flag an incomplete tail is left unconsumed and never reported as an error; with it, and four bytes of room, a truncated tail is always reported as an error when decoding and never silently dropped, and when encoding Big5 a pending letter is written.",
  ["inputs","histories"],"all inputs x both flag values x all buffer sizes",
  "Two or three truncation samples per encoding, all with large buffers.",
  ["src/utf8.rs","src/utf16_be.rs","src/utf16_le.rs","src/utf32_be.rs","src/utf32_le.rs","src/big5_whatwg.rs","src/shiftjis_whatwg.rs"],
  [("is_end branches","decode loops, big5 encode")],["pairs of calls differing in the flag"])
p("C21","Conversion does not depend on length or position",
  "Converting the concatenation of texts (or of whole encoded sequences) yields the concatenation of the separate conversions, at any offset and total length: no length, position, repetition or alignment of surrounding text changes how a character is converted or how positions and counts are reported.",
  ["inputs"],"all prefix lengths and alignments around each unit, up to long inputs",
  "Tests use inputs under about 4 KB, one alignment, and check counts only on short samples.",
  ALL,[("usize cursors","codec loops")],["results on long inputs"],CUR)
p("C22","ASCII is never swallowed or forged",
  "In UTF-8, Big5, Shift JIS and all single-byte encodings, ASCII text encodes and decodes to the identical bytes in any context. Decoding never discards an ASCII byte as part of an invalid sequence (it is never inside an error range), and apart from the two WHATWG Shift JIS substitutions (U+00A5, U+203E) no non-ASCII character encodes to, and no byte sequence starting with a non-ASCII byte decodes to, an ASCII character.",
  ["inputs"],"all inputs mixing ASCII with malformed or multi-byte sequences, both end flags",
  "A swallowed delimiter after a malformed lead byte is the classic encoding security bug; tests check three such samples.",
  ["src/utf8.rs","src/big5_whatwg.rs","src/shiftjis_whatwg.rs","src/single_byte.rs"],
  [("ascii fast path","codec loops"),("ascii trail byte excluded from the error","big5/shiftjis"),("truncation test","utf8.rs")],["error ranges, texts"])
p("C23","Shipped tables equal what the mapping data generates",
  "Regenerating the conversion tables (and the table test data) from the mapping files in the repository with its generator scripts reproduces the shipped behaviour exactly: every byte, every two-byte code and every character converts the same with the regenerated tables as with the shipped ones.",
  ["programs","inputs"],"every entry of every mapping file, every code and character",
  "The generated files are checked in and nothing compares them with their sources; no test runs the generators.",
  ["encoding_tables/single_byte/generate_ascii_ext_tables.py","encoding_tables/whatwg/generate_big5.py","encoding_tables/whatwg/generate_shiftjis.py","encoding_tables/**/*.txt"]+GEN,
  [("generator scripts","encoding_tables"),("include! of generated tables","src")],["behaviour of a crate built with regenerated tables"])
p("C24","The same results in every build and on every platform",
  "The result of every call - text or bytes, consumed count, errors and their ranges - is the same whether the crate is built with or without optimisation, debug assertions and overflow checks, and on every target, whatever its byte order and pointer width.",
  ["inputs","programs"],"all inputs x buffer sizes x end flags x builds x targets",
  "The tests run in one debug build on one little-endian 64-bit machine.",
  ALL+GEN,[("from_be/le_bytes, to_be/le_bytes","utf16_*/utf32_*"),("usize cursors and shifts","codec loops"),("arithmetic without side conditions","surrogate and pointer arithmetic")],
  ["results of the same call in several builds, and interpreted for other targets"])
p("C25","No undefined behaviour",
  "No call, on any input and any buffer, from any number of threads at once, executes undefined behaviour: no access outside the slices given or the crate's own tables (even if the value is then ignored), no out-of-range unchecked index, no uninitialised or misaligned read, no invalid value (such as a surrogate as a char), no breach of the aliasing rules, no data race.",
  ["inputs","schedules"],"all inputs x buffer sizes x end flags; concurrent callers",
  "Undefined behaviour usually has no visible effect in a test run; a stray read beside a slice or table, or a racing static, returns the right result.",
  ALL,[("from_utf8_unchecked / get_unchecked and their justification","every codec"),("no mutable statics","crate")],
  ["each step of the calls, interpreted"])
p("C26","The work of a call is proportional to its input",
  "The work done by one encode or decode call is at most proportional to the bytes it is given plus the room it is given: no input - valid or not, with or without enough room - makes the cost per character grow with the length of the input or of the buffer.",
  ["inputs"],"all inputs of growing length x buffer sizes x end flags",
  "A rescan from the start at each step gives the right results, and tests convert short samples once, without looking at the cost.",
  ALL,[("single pass over the input","codec loops"),("binary search in fixed tables","encoders")],["instructions executed by a call"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
