//! Analysis entry points. Nothing here is ever run: the extractor walks the call graph from these
//! functions, which instantiate the public interface of the analysed crate.
#![allow(dead_code)]

use postscript::compact1::character_set::{CharacterSet0, CharacterSet1, CharacterSet2};
use postscript::compact1::encoding::{Encoding0, Encoding1, EncodingSupplemental};
use postscript::compact1::font_set::{character_id_keyed as cid, character_name_keyed as cnk, Record};
use postscript::compact1::index::{
    CharacterStrings, Dictionaries, Index, Names, Strings, Subroutines,
};
use postscript::compact1::{
    CharacterSet, Encoding, FontSet, GlyphID, Header, Number, Offset, OffsetSize, Operations,
    Operator, StringID,
};
use postscript::tape::Read as _;
use postscript::type2;
use postscript::{value, walue, Result};

/// A stand-in for an arbitrary seekable byte stream. The analysis gives these methods their
/// meaning.
pub struct Tape(u64);

impl std::io::Read for Tape {
    #[inline(never)]
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
        loop {}
    }
    #[inline(never)]
    fn read_exact(&mut self, _: &mut [u8]) -> std::io::Result<()> {
        loop {}
    }
}

impl std::io::Seek for Tape {
    #[inline(never)]
    fn seek(&mut self, _: std::io::SeekFrom) -> std::io::Result<u64> {
        loop {}
    }
    #[inline(never)]
    fn stream_position(&mut self) -> std::io::Result<u64> {
        loop {}
    }
}

pub fn header(t: &mut Tape) -> Result<Header> {
    value::Read::read(t)
}
pub fn offset(t: &mut Tape, size: OffsetSize) -> Result<Offset> {
    walue::Read::read(t, size)
}
pub fn number(t: &mut Tape) -> Result<Number> {
    value::Read::read(t)
}
pub fn operations(t: &mut Tape) -> Result<Operations> {
    value::Read::read(t)
}
pub fn operations_get(o: &Operations, k: Operator) -> Option<&[Number]> {
    o.get(k)
}
pub fn operations_get_single(o: &Operations, k: Operator) -> Option<Number> {
    o.get_single(k)
}
pub fn operations_get_double(o: &Operations, k: Operator) -> Option<(Number, Number)> {
    o.get_double(k)
}
pub fn operator_from(code: u16) -> Result<Operator> {
    Operator::from(code)
}
pub fn operator_default(o: &Operator) -> Option<&'static [Number]> {
    o.default()
}
pub fn index(t: &mut Tape) -> Result<Index> {
    value::Read::read(t)
}
pub fn names(t: &mut Tape) -> Result<Names> {
    value::Read::read(t)
}
pub fn names_into(n: Names) -> Result<Vec<String>> {
    n.try_into()
}
pub fn strings(t: &mut Tape) -> Result<Strings> {
    value::Read::read(t)
}
pub fn strings_get(s: &Strings, id: StringID) -> Option<String> {
    s.get(id)
}
pub fn subroutines(t: &mut Tape) -> Result<Subroutines> {
    value::Read::read(t)
}
pub fn dictionaries(t: &mut Tape) -> Result<Dictionaries> {
    value::Read::read(t)
}
pub fn dictionaries_get(d: &Dictionaries, i: usize) -> Result<Operations> {
    d.get(i)
}
pub fn dictionaries_into(d: &Dictionaries) -> Result<Vec<Operations>> {
    d.try_into()
}
pub fn character_strings(t: &mut Tape, format: i32) -> Result<CharacterStrings> {
    walue::Read::read(t, format)
}
pub fn character_set(t: &mut Tape, count: usize) -> Result<CharacterSet> {
    walue::Read::read(t, count)
}
pub fn character_set0(t: &mut Tape, count: usize) -> Result<CharacterSet0> {
    walue::Read::read(t, count)
}
pub fn character_set1(t: &mut Tape, count: usize) -> Result<CharacterSet1> {
    walue::Read::read(t, count)
}
pub fn character_set2(t: &mut Tape, count: usize) -> Result<CharacterSet2> {
    walue::Read::read(t, count)
}
pub fn character_set_get(c: &CharacterSet, g: GlyphID) -> Option<&'static str> {
    c.get(g)
}
pub fn encoding(t: &mut Tape) -> Result<Encoding> {
    value::Read::read(t)
}
pub fn encoding0(t: &mut Tape) -> Result<Encoding0> {
    value::Read::read(t)
}
pub fn encoding1(t: &mut Tape) -> Result<Encoding1> {
    value::Read::read(t)
}
pub fn encoding_supplemental(t: &mut Tape) -> Result<EncodingSupplemental> {
    value::Read::read(t)
}
pub fn encoding_get(e: &Encoding, g: GlyphID) -> Option<StringID> {
    e.get(g)
}
pub fn string_id(n: Number) -> Result<StringID> {
    StringID::try_from(n)
}
pub fn number_from_f32(x: f32) -> Number {
    x.into()
}
pub fn number_from_i32(x: i32) -> Number {
    x.into()
}
pub fn font_set_count(t: &mut Tape) -> Result<usize> {
    FontSet::count(t)
}
pub fn font_set(t: &mut Tape) -> Result<FontSet> {
    value::Read::read(t)
}
pub fn record(t: &mut Tape, p: u64, o: &Operations, c: &CharacterStrings) -> Result<Record> {
    walue::Read::read(t, (p, o, c))
}
pub fn name_record(t: &mut Tape, p: u64, o: &Operations) -> Result<cnk::Record> {
    walue::Read::read(t, (p, o))
}
pub fn cid_record(t: &mut Tape, p: u64, o: &Operations, c: &CharacterStrings) -> Result<cid::Record> {
    walue::Read::read(t, (p, o, c))
}
pub fn cid_inner(t: &mut Tape, p: u64, o: &Operations) -> Result<cid::RecordInner> {
    walue::Read::read(t, (p, o))
}
pub fn cid_encoding(t: &mut Tape, c: &CharacterStrings) -> Result<cid::Encoding> {
    walue::Read::read(t, c)
}
pub fn cid_encoding0(t: &mut Tape, c: &CharacterStrings) -> Result<cid::Encoding0> {
    walue::Read::read(t, c)
}
pub fn cid_encoding3(t: &mut Tape) -> Result<cid::Encoding3> {
    value::Read::read(t)
}

pub fn program_new<'l>(code: &'l [u8], global: &'l [Vec<u8>], local: &'l [Vec<u8>]) -> type2::Program<'l> {
    type2::Program::new(code, global, local)
}
pub fn program_next(p: &mut type2::Program<'_>) -> Result<Option<type2::Operation>> {
    p.next()
}
pub fn program_width(p: &type2::Program<'_>) -> Option<f32> {
    p.width()
}
pub fn program_one<'l>(
    code: &'l [u8],
    global: &'l [Vec<u8>],
    local: &'l [Vec<u8>],
) -> (Result<Option<type2::Operation>>, Option<f32>) {
    let mut program = type2::Program::new(code, global, local);
    let first = program.next();
    (first, program.width())
}
pub fn program_all<'l>(
    code: &'l [u8],
    global: &'l [Vec<u8>],
    local: &'l [Vec<u8>],
) -> Result<(Vec<type2::Operation>, Option<f32>)> {
    let mut program = type2::Program::new(code, global, local);
    let mut operations = Vec::new();
    while let Some(operation) = program.next()? {
        operations.push(operation);
    }
    Ok((operations, program.width()))
}
pub fn type2_operator_from(code: u16) -> Result<type2::Operator> {
    type2::Operator::from(code)
}

/// Dereference targets of the index wrappers: `len` and indexing go through the data.
pub fn deref_names(x: &Names) -> &[Vec<u8>] {
    x
}
pub fn deref_strings(x: &Strings) -> &[Vec<u8>] {
    x
}
pub fn deref_subroutines(x: &Subroutines) -> &[Vec<u8>] {
    x
}
pub fn deref_character_strings(x: &CharacterStrings) -> &[Vec<u8>] {
    x
}
pub fn deref_dictionaries(x: &Dictionaries) -> &[Vec<u8>] {
    x
}
pub fn default_subroutines() -> Subroutines {
    Default::default()
}

/// Anchors for the extractor: the definition of `Iterator::next`.
pub fn iterator_next(v: &[u8]) -> u64 {
    let mut n = 0;
    for x in v {
        n ^= *x as u64;
    }
    n
}
pub fn peek(t: &mut Tape) -> Result<u8> {
    t.peek()
}
