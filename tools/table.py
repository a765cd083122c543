IN = ["inputs"]
INF = ["inputs", "fault_sequences"]
FEW = "The tests read a handful of well-formed fonts; "

ALLSRC = [C1 + "index/mod.rs", C1 + "number.rs", C1 + "operation.rs", C1 + "character_set.rs", C1 + "encoding.rs", FS + "mod.rs", FS + "character_id_keyed.rs", FS + "character_name_keyed.rs"]

p("P01", "Reading never panics, whatever the data",
  "Reading any part of a font, or a whole font set, from any stream, and any lookup in what was read, returns a value or an error; it never panics, be it by an arithmetic overflow, an index out of range, a failed assertion or an unwrapped failure. Fetching a dictionary beyond the last one of an index is outside the claim, as is a number of glyphs above 65535.",
  INF, TAPE + "; all arguments of lookups", FEW + "no test reads malformed data.",
  ALLSRC, [("arithmetic on counts, offsets and sizes", C1 + "index/mod.rs"), ("operand conversion", C1 + "number.rs"), ("assembly of records", FS + "mod.rs")],
  "proof", "Unbounded. Compositional: a font set is analysed over the contracts of its parts, and each part on its own. Overflow counts as a panic as in a build with overflow checks; exhaustion of memory does not.")
p("P02", "Interpreting a charstring never panics",
  "Stepping through any charstring, with any subroutines, yields operations, an end or an error; it never panics, whatever operators meet whatever operands, not-a-number and infinite ones included.",
  IN, "any operator (one or two bytes) on 0 to 14, 24, 47 to 49 and 96 operands of any value, with one to three computed by division, and operands that are any integer, any fraction or any quotient for the operators that take positions", "The sampled charstrings are well-formed.",
  [T2 + "program.rs", T2 + "number.rs", T2 + "operation.rs"], [("operand stack", T2 + "program.rs"), ("conversion of operands to positions", T2 + "program.rs")],
  "other", "Bounded shapes, arbitrary operand values and operators.")
p("P03", "Reading and interpreting come to an end",
  "No reader loops for ever, on data of any content and on a stream that has started to fail for good, and neither does a charstring: subroutines that call themselves, directly or through others, are an error, and the work of an operator is bounded by the number of operands rather than by their values. The depth of the call stack does not grow with the length of the data or the program.",
  INF, "every loop the analysis meets in the readers, any data and any point of failure; for charstrings, the self-calling programs and long programs the evidence lists", "No test has a self-calling subroutine, a failing stream or a long program.",
  [T2 + "program.rs", C1 + "operation.rs", C1 + "index/mod.rs", C1 + "character_set.rs"], [("nesting limit and loop of the interpreter", T2 + "program.rs"), ("loop over operations", C1 + "operation.rs")],
  "other", "A loop is reported when one turn provably leads back to the state it started from; loops that diverge through ever new states are only found where a program of known bytes does not finish within the bound. Depth is compared for 10 and 60 pieces.")
p("P04", "A failure of the stream is returned as such",
  "If the stream fails while anything is read, be it a read, a seek or a query of the position, the caller gets the error of the stream: it is not swallowed, not replaced and never turned into a value. The sole exception is the end of the data while reading a dictionary, which ends it.",
  INF, TAPE, "No test has a stream that fails.",
  ALLSRC + [FS + "character_id_keyed.rs"], [("propagation of errors", C1 + "operation.rs"), ("peeking at formats", C1 + "encoding.rs")],
  "proof", "Unbounded: every failure point of every reader, with parts replaced by their contracts where they are analysed on their own.")
p("P05", "A font header is its first four bytes",
  "Reading a header yields the four leading bytes as major version, minor version, header size and offset size, in this order, and consumes exactly these four bytes; if the stream cannot deliver them the result is an error.",
  INF, TAPE, FEW + "all of them have the same header.", [C1 + "header.rs"], [("field order of the header record", C1 + "header.rs")],
  "proof", "Unbounded: all streams.")
p("P06", "Offsets are big-endian integers of one to four bytes",
  "An offset of declared size one to four is the big-endian unsigned integer of exactly that many bytes and consumes exactly these; any other declared size is an error.",
  INF, TAPE + ", with every declared size 0 to 255", FEW + "offset sizes three and four and the invalid ones are hardly met.", [C1 + "offset.rs"], [("size dispatch", C1 + "offset.rs")],
  "proof", "Unbounded: all streams and sizes.")
p("P07", "An index yields exactly the byte ranges its offsets delimit",
  "Reading an index yields its count, offset size and offsets as stored and one chunk per pair of consecutive offsets holding precisely the bytes between them, and leaves the stream right after the last chunk; an index of count zero takes two bytes. Name, string, subroutine, dictionary and charstring indices have the same layout, and charstrings of a type other than 2 are an error.",
  INF, TAPE + "; the counts are every count for the layout of counts that is summarised and each small count separately", FEW + "zero-length entries, every offset size and misaligned first offsets are not met.",
  [C1 + "index/mod.rs", C1 + "index/names.rs", C1 + "index/strings.rs", C1 + "index/subroutines.rs", C1 + "index/dictionaries.rs", C1 + "index/character_strings.rs"],
  [("offset arithmetic and chunk sizes", C1 + "index/mod.rs"), ("charstring type check", C1 + "index/character_strings.rs")],
  "other", "The general case is decided for any count with a summarised loop; additionally every count of 0 to 3 (thorough: 5) with all offsets symbolic. Malformed offsets must be errors for the counts enumerated.")
p("P08", "Integer operands in dictionaries have the value the format gives them",
  "A number whose first byte is 28, 29 or 32 to 254 is the integer the format defines for its one, two, three or five bytes, with exactly these bytes consumed; a reserved first byte (0 to 27, 31, 255) is an error and consumes at most that byte.",
  INF, TAPE, FEW + "each form is sampled at a few values, none at the limits.", [C1 + "number.rs"], [("first-byte dispatch and arithmetic", C1 + "number.rs")],
  "proof", "Unbounded for integers; the reals met here are decided up to their text under the property on reals.")
p("P09", "Real operands in dictionaries spell out their half bytes",
  "A number starting with 30 is the decimal number written by the half bytes that follow, digits, decimal point, exponent markers and minus sign being where the bytes place them, up to and including the byte that holds the terminator; a reserved half byte or malformed text is an error.",
  INF, "every sequence of half bytes up to the stated lengths, followed by anything", FEW + "three short reals are read.", [C1 + "number.rs"], [("half-byte loop", C1 + "number.rs")],
  "other", "Bounded: all sequences of up to 4 (thorough: 6) half bytes, and mantissas of up to 40 (thorough: 130) bytes with one arbitrary byte at one of four places. That the text is then parsed correctly into a float is the standard library's.")
p("P10", "Dictionary operator codes name the operators of the format",
  "Every one- and two-byte code that the format assigns to a dictionary operator is recognised as that operator, and every other code is an error.",
  IN, "all 65536 codes", "The tests mention fewer than half of the operators.", [C1 + "operation.rs"], [("operator table", C1 + "operation.rs")],
  "proof", "All 65536 codes.")
p("P11", "Dictionary operators have the defaults of the format",
  "An operator to which the format gives a default has exactly that default, and an operator without one has none.",
  IN, "all operators", "The defaults are observed only where a sampled font omits the operator.", [C1 + "operation.rs"], [("default table", C1 + "operation.rs")],
  "proof", "All operators.")
p("P12", "A dictionary maps each operator to the operands before it",
  "Reading a dictionary yields, for every operator in it, exactly the operands that precede it since the previous operator, in order; the last of several occurrences of an operator wins, and an invalid number or operator is an error. A dictionary in an index is read from its own bytes only.",
  INF, "every dictionary of up to three bytes, and the families of longer dictionaries the evidence lists with arbitrary operand values and operators", FEW + "repeated operators, empty operand lists, long operand lists and malformed tails are not met.",
  [C1 + "operation.rs", C1 + "index/dictionaries.rs", C1 + "mod.rs"], [("accumulation of operands", C1 + "operation.rs"), ("range of one dictionary", C1 + "index/dictionaries.rs")],
  "other", "Bounded shapes, arbitrary contents: every pair of operand encodings before every operator, up to 60 (thorough: 513) operands, all operators once and twice. Where the data ends in the middle of an operation the result is unconstrained.")
p("P13", "Dictionary lookups return what is stored, else the default",
  "Looking up an operator yields its stored operands if the dictionary has the operator and the operator's default otherwise; the single and double forms yield the first and the first two operands, and nothing if there are fewer.",
  IN, "all operators, with any number of stored operands of any value", "Only a few operators are looked up, in their usual shape.", [C1 + "operation.rs"], [("lookup with default", C1 + "operation.rs")],
  "other", "All operators; stored operands of any number (the whole list) and of 0 to 3 (for five operators) for the single and double forms.")
p("P14", "Names are the text of their bytes, in order",
  "Converting a name index to strings yields one string per entry, in order, each the text of that entry's bytes.",
  IN, "every index of any count and contents", "One font with one plain name is converted.", [C1 + "index/names.rs"], [("conversion", C1 + "index/names.rs")],
  "proof", "Unbounded.")
p("P15", "String identifiers resolve to standard strings, then to the string index",
  "Identifiers 0 to 390 name the standard strings of the format, in its order; an identifier of 391 or more names the entry of the string index at the identifier minus 391, and nothing if there is no such entry.",
  IN, "all 65536 identifiers and every string index", "A few identifiers are resolved.", [C1 + "index/strings.rs"], [("standard strings and offset", C1 + "index/strings.rs")],
  "proof", "All identifiers, any index.")
p("P16", "Only integers of sixteen bits convert to string identifiers",
  "An integer number between 0 and 65535 converts to the string identifier of that value and every other number is an error; 32-bit integers and floats convert to numbers of the same value.",
  IN, "every number", "One or two identifiers are converted.", [C1 + "index/strings.rs", C1 + "number.rs"], [("conversions", C1 + "number.rs")],
  "proof", "All numbers.")
p("P17", "Character sets assign to glyphs the identifiers the data lists",
  "A character set of format 0 lists one identifier per glyph but the first; formats 1 and 2 list ranges, each a first identifier and a number left of one or two bytes, and reading stops with the range that covers the last glyph; a range that goes beyond the last glyph is an error. Everything is kept as stored, exactly the listed bytes are consumed, and an unknown format is an error.",
  INF, TAPE + " and every number of glyphs (for ranges, see the note)", FEW + "format 2, last ranges that overshoot, and small glyph counts are not met.", [C1 + "character_set.rs"], [("format dispatch and range loop", C1 + "character_set.rs")],
  "other", "Format 0: any number of glyphs. Formats 1 and 2: up to 5 (thorough: 8) glyphs in any division into ranges, and any number of glyphs in up to three ranges of any length.")
p("P18", "Predefined character sets name the glyphs of the format",
  "In each of the three predefined character sets the name of a glyph is the one the format lists, and glyphs beyond the set have none.",
  IN, "all 65536 glyphs, in each set", "No predefined name is looked up.", [C1 + "character_set.rs"], [("tables", C1 + "character_set.rs")],
  "proof", "All glyphs; the answer for glyph 0 is not constrained.")
p("P19", "Custom encodings hold the codes the data lists",
  "An encoding of format 0 or 1 holds the listed codes or ranges as stored, and a supplement the listed codes and glyphs; a supplement follows the codes or ranges if and only if the high bit of the format byte is set. Exactly these bytes are consumed, and an unknown format is an error.",
  INF, TAPE, FEW + "supplements and both formats are not all met.", [C1 + "encoding.rs"], [("format dispatch and record layouts", C1 + "encoding.rs")],
  "proof", "Unbounded for formats 0 and 1, the dispatch, and the layout of a supplement (for format bytes with the high bit set); where a supplement lies is decided for encodings of one and two codes or ranges, and is a known finding: it is looked for directly after the format byte.")
p("P20", "Predefined encodings map codes to the strings of the format",
  "In the standard and the expert encoding every code maps to the string identifier the format lists, and codes beyond the encoding to nothing.",
  IN, "all 65536 codes, in each encoding", "No predefined code is looked up.", [C1 + "encoding.rs"], [("tables", C1 + "encoding.rs")],
  "proof", "All codes.")
p("P21", "Font dictionary selectors hold what the data lists",
  "The table that assigns font dictionaries to the glyphs of a character-ID-keyed font is, in format 0, one dictionary index per glyph and, in format 3, the listed ranges and the sentinel, as stored; exactly these bytes are consumed, and any other format is an error.",
  INF, TAPE + " and every number of glyphs", FEW + "one font has such a table.", [FS + "character_id_keyed.rs"], [("format dispatch and record layouts", FS + "character_id_keyed.rs")],
  "proof", "Unbounded.")
p("P22", "Reading a font set follows the layout and the offsets of the font",
  "Reading a font set yields the header, the name, top dictionary, string and global subroutine indices one after the other starting after the header, and per font the charstrings, character set, encoding and record found at the offsets its top dictionary gives, with the predefined character sets and encodings for the reserved offsets. If one of these cannot be read, a required offset is missing, or an offset or size is negative or of the wrong type, the result is an error.",
  INF, TAPE + "; the parts are known by the contracts of their own properties", FEW + "missing operators, wrong types and reserved offsets are not all met.", [FS + "mod.rs", FS + "character_name_keyed.rs"],
  [("order of the parts", FS + "mod.rs"), ("offset lookups", FS + "mod.rs")],
  "other", "Any contents; sets without fonts and, with a summarised loop, sets of any number of fonts. The parts are taken by contract and decided under their own properties.")
p("P23", "A font set inside a stream is read relative to its own start",
  "Wherever in a stream a font set starts, reading it from there interprets all its offsets relative to that start; counting the fonts there yields the count of its name index.",
  INF, TAPE + "; any start up to 2^62", "The tests read one font set embedded in another file.", [FS + "mod.rs"], [("start position", FS + "mod.rs")],
  "proof", "Any start and contents.")
p("P24", "Every font of a set is read from its own dictionary",
  "The n-th font of a set takes its charstrings, character set, encoding and record from the n-th top dictionary, with the number of glyphs of its own charstrings, independently of the other fonts; a failure in any of them fails the set.",
  INF, TAPE + "; sets of one and two (thorough: three) fonts", "Every sampled font set has a single font.", [FS + "mod.rs"], [("loop over the fonts", FS + "mod.rs")],
  "other", "Sets of one and two (thorough: three) fonts with any contents; parts by contract.")
p("P25", "Private dictionaries and local subroutines are read where they are declared",
  "A font's private dictionary is the declared number of bytes at the declared offset from the start of the font set, and its local subroutines, if declared, are at the declared offset from the start of the private dictionary; a missing, negative or overflowing size or offset is an error.",
  INF, TAPE + " and every top dictionary", FEW + "odd sizes and offsets are not met.", [FS + "character_name_keyed.rs", FS + "character_id_keyed.rs"], [("offset arithmetic", FS + "character_name_keyed.rs")],
  "proof", "Any contents; parts by contract.")
p("P26", "Character-ID-keyed records are read with all their font dictionaries",
  "A font whose top dictionary has the registry operator is character-ID-keyed and any other is name-keyed; for a character-ID-keyed font the registry, ordering and supplement, the dictionary selector and the font dictionaries with their private parts are those at the declared offsets, and one that is missing or malformed is an error.",
  INF, TAPE + " and every top dictionary", "One such font is read.", [FS + "character_id_keyed.rs", FS + "mod.rs"], [("dispatch", FS + "mod.rs"), ("reading order", FS + "character_id_keyed.rs")],
  "proof", "Any contents, any number of font dictionaries; parts by contract.")
NUM = "The tests run the charstrings of a few fonts; "
PR = [T2 + "program.rs"]
p("P27", "Charstring operands have the value the format gives them",
  "In a charstring a byte of 32 to 254 starts an integer of one or two bytes, 28 one of three, and 255 a 16.16 fixed-point number of five; each is an operand of exactly that value and the bytes after it are the next operand or operator. An operand cut short by the end of the charstring is an error.",
  IN, "every charstring of up to three (thorough: four) bytes, and every sequence of one or two (thorough: three) operands of any form and value before an operator", NUM + "limits, negative fractions and truncated operands are not met.",
  [T2 + "number.rs", T2 + "program.rs"], [("first-byte dispatch and arithmetic", T2 + "number.rs")],
  "other", "Bounded length, arbitrary contents: all charstrings of up to three bytes; all combinations of two forms (thorough: three) with arbitrary values.")
p("P28", "Charstring operator codes name the operators of the format",
  "Every one- and two-byte code that the format assigns to a charstring operator is recognised as that operator, and every other code is an error.",
  IN, "all 65536 codes", "The sampled charstrings use fewer than half of the operators.", [T2 + "operation.rs"], [("operator table", T2 + "operation.rs")],
  "proof", "All 65536 codes.")
p("P29", "A path operator takes the operands of its own form and clears the stack",
  "A path operator yields an operation of that operator with the longest suffix of the operands on the stack whose number fits the operator, in order, and leaves the stack empty; if no suffix fits, the result is an error.",
  IN, "every path operator with 0 to 48 operands of any value (48 is what the format allows on the stack), alone and after another operator", NUM + "odd numbers of operands and long runs are not met.",
  PR, [("operand counts per operator", T2 + "program.rs")],
  "other", "Every operator with each number of operands up to the limit of the format; pairs of operators with up to 14 operands. Operands are arbitrary integers of one byte (other forms are decided under P27).")
p("P30", "Arithmetic operators compute on the topmost operands",
  "abs, neg and sqrt replace the topmost operand and add, sub, mul and div the two topmost ones by the result of that operation, in the order of the format; the other operands stay, and a missing operand is an error.",
  IN, "each operator with 0 to 4 operands, operands of every form and value, and every sequence of two (thorough: three) operators", NUM + "most arithmetic operators occur in none of them.",
  PR, [("operators", T2 + "program.rs")],
  "other", "Bounded sequences, arbitrary values; decides which floating-point operation is applied to which operands. Precision with respect to fixed-point arithmetic is not claimed (P91).")
p("P31", "Stack operators rearrange the operands as the format says",
  "drop removes, exch swaps, dup repeats, index copies and roll rotates operands as the format defines, including negative indices and shifts of any size; missing operands, a span or index beyond the stack, a negative span and operands that are no integers are errors.",
  IN, "each operator with 0 to 5 operands; index among up to 47 with any index; roll with every span among up to 5 (thorough: 8) operands and any shift", NUM + "roll and index occur in none of them.",
  PR, [("operators", T2 + "program.rs")],
  "other", "Bounded stacks, arbitrary values.")
p("P32", "Logical and conditional operators decide as the format says",
  "and, or, not and eq yield one or zero according to whether their operands are zero or equal, and ifelse yields the first of two operands if the third is at most the fourth and otherwise the second; the other operands stay, and a missing operand is an error.",
  IN, "each operator with every number of operands around its own, operands of every form, computed operands, infinities and what is no number", NUM + "none of them has a conditional.",
  PR, [("operators", T2 + "program.rs")],
  "other", "Bounded sequences, arbitrary values.")
p("P33", "Masks are as long as the stems declared so far require",
  "A stem operator yields an operation with its pairs of operands; a mask operator takes operands on the stack as a last declaration of stems, is followed by one bit per stem declared so far rounded up to bytes, which are no operators, and yields an operation without operands. A mask cut short is an error.",
  IN, "stem operators with 0 to 11 and 48 operands, masks after 0 to 39 (thorough: 48), in any of the listed orders, with any mask bytes", NUM + "they have few stems and few masks.",
  PR, [("counting of stems", T2 + "program.rs")],
  "other", "Bounded sequences: up to three declarations of stems, two masks, up to 72 stems; arbitrary operands and mask bytes.")
p("P34", "The width is the extra first operand of the first operator",
  "If the first stack-clearing operator of a charstring has one operand more than it takes, the width is the first operand, and otherwise there is none; what comes later does not change a width once found.",
  IN, "every operator that may come first, with operands of every form, followed by other operators with and without superfluous operands", NUM + "widths are looked at in one.",
  PR, [("width detection", T2 + "program.rs")],
  "other", "Bounded sequences, arbitrary values. With superfluous operands on later operators and no width before, the format says nothing and neither does the property.")
p("P35", "Subroutines are found by the biased number and return to the caller",
  "callsubr and callgsubr continue with the local and the global subroutine whose index is the topmost operand plus 107, 1131 or 32768 for fewer than 1240, fewer than 33900 and more subroutines; operands, stems and width carry over, return continues after the call, and the end operator ends the charstring from within. A number without a subroutine, a fractional one, and a return outside a subroutine are errors. Up to ten levels may be nested.",
  IN, "tables of 0 to 4 subroutines and any number; tables of 214 to 33901 around the limits; nesting up to ten levels in both kinds", NUM + "none has more than 1240 subroutines or mixes both kinds.",
  PR, [("bias", T2 + "program.rs"), ("call and return", T2 + "program.rs")],
  "other", "Bounded: the listed table sizes (every size up to 4 with any number, the limits of the bias with selected numbers), bodies of the listed shapes with arbitrary operands.")
p("P36", "A charstring ends with the end operator or its last byte",
  "Stepping through a charstring yields its operations in order and then nothing once the end operator or the last byte is reached; bytes after the end operator are not executed.",
  IN, "charstrings with the end operator at the start, after operands, after other operators, followed by anything", NUM + "all of these end properly.",
  PR, [("end of a routine", T2 + "program.rs")],
  "other", "Bounded shapes, arbitrary operands. What a further step yields after the end operator has been met is not claimed.")
p("P37", "Reading and interpreting depend on the data alone",
  "What is read from a stream and what a charstring yields are functions of the stream and the arguments: no function of the crate consults or affects anything else, be it files, the environment, the console, the clock, threads or processes.",
  IN, "every function of the crate reachable from its interface", "A test cannot show that something is never consulted.",
  ["src/lib.rs", C1 + "mod.rs", T2 + "mod.rs"], [("no effects but on the stream", "src/lib.rs")],
  "proof", "Static: the call graph of the compiled crate from its whole interface; every call to the standard library is compared with a list of effectful modules. Trusted: the list.")
