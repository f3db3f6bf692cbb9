// Registry of every encoding module of the crate under test (public API only).
use super::cut::*;

pub type DecFn = for<'a> fn(&[u8], &'a mut [u8], bool) -> DecodeResult<'a>;
pub type EncFn = for<'a> fn(&str, &'a mut [u8], bool) -> EncodeResult<'a>;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Kind {
    Utf8,
    Utf16 { be: bool },
    Utf32 { be: bool },
    Big5,
    Sjis,
    Single,
}

#[derive(Copy, Clone)]
pub struct Enc {
    pub name: &'static str,
    pub idx: usize,
    pub kind: Kind,
    pub dec: DecFn,
    pub enc: EncFn,
    /// does the decoder / encoder take an end-of-input flag?
    pub dec_end: bool,
    pub enc_end: bool,
}

impl Enc {
    pub fn is_utf(&self) -> bool {
        matches!(self.kind, Kind::Utf8 | Kind::Utf16 { .. } | Kind::Utf32 { .. })
    }
    pub fn ascii_compat(&self) -> bool {
        !matches!(self.kind, Kind::Utf16 { .. } | Kind::Utf32 { .. })
    }
    pub fn ends_dec(&self) -> &'static [bool] {
        if self.dec_end { &[false, true] } else { &[true] }
    }
    pub fn ends_enc(&self) -> &'static [bool] {
        if self.enc_end { &[false, true] } else { &[true] }
    }
}

macro_rules! dec2 { ($($m:ident)::+) => {{
    fn f<'a>(i: &[u8], o: &'a mut [u8], _e: bool) -> DecodeResult<'a> { $($m)::+::decode_to_str(i, o) }
    f as DecFn
}} }
macro_rules! enc2 { ($($m:ident)::+) => {{
    fn f<'a>(i: &str, o: &'a mut [u8], _e: bool) -> EncodeResult<'a> { $($m)::+::encode_from_str(i, o) }
    f as EncFn
}} }
macro_rules! dec3 { ($($m:ident)::+) => {{
    fn f<'a>(i: &[u8], o: &'a mut [u8], e: bool) -> DecodeResult<'a> { $($m)::+::decode_to_str(i, o, e) }
    f as DecFn
}} }
macro_rules! enc3 { ($($m:ident)::+) => {{
    fn f<'a>(i: &str, o: &'a mut [u8], e: bool) -> EncodeResult<'a> { $($m)::+::encode_from_str(i, o, e) }
    f as EncFn
}} }
macro_rules! singles { ($v:ident; $($m:ident),*) => { $(
    $v.push(Enc { name: stringify!($m), idx: $v.len(), kind: Kind::Single,
        dec: dec2!(single_byte::$m), enc: enc2!(single_byte::$m), dec_end: false, enc_end: false });
)* } }

pub fn all() -> Vec<Enc> {
    let mut v: Vec<Enc> = Vec::new();
    let mut utf = |name, kind, dec, enc| {
        v.push(Enc { name, idx: v.len(), kind, dec, enc, dec_end: true, enc_end: false })
    };
    utf("utf8", Kind::Utf8, dec3!(utf8), enc2!(utf8));
    utf("utf16_be", Kind::Utf16 { be: true }, dec3!(utf16_be), enc2!(utf16_be));
    utf("utf16_le", Kind::Utf16 { be: false }, dec3!(utf16_le), enc2!(utf16_le));
    utf("utf32_be", Kind::Utf32 { be: true }, dec3!(utf32_be), enc2!(utf32_be));
    utf("utf32_le", Kind::Utf32 { be: false }, dec3!(utf32_le), enc2!(utf32_le));
    v.push(Enc { name: "big5_whatwg", idx: 5, kind: Kind::Big5, dec: dec3!(big5_whatwg), enc: enc3!(big5_whatwg), dec_end: true, enc_end: true });
    v.push(Enc { name: "shiftjis_whatwg", idx: 6, kind: Kind::Sjis, dec: dec3!(shiftjis_whatwg), enc: enc2!(shiftjis_whatwg), dec_end: true, enc_end: false });
    singles!(v; ascii, ibm_866, iso_8859_1, iso_8859_2, iso_8859_3, iso_8859_4, iso_8859_5, iso_8859_6,
        iso_8859_7, iso_8859_8, iso_8859_9, iso_8859_10, iso_8859_11, iso_8859_13, iso_8859_14, iso_8859_15,
        iso_8859_16, koi8_r, koi8_u, mac_roman, mac_cyrillic, windows_874, windows_1250, windows_1251,
        windows_1252, windows_1253, windows_1254, windows_1255, windows_1256, windows_1257, windows_1258);
    v
}
