//! The same source built differently: as shipped (optimised, unchecked) and as a debug build.
use crate::encs::Enc;
use crate::judge::text;
use crate::rt::*;

macro_rules! build {
    ($m:ident, $krate:ident) => {
        pub mod $m {
            use super::*;
            mod cut_ {
                pub use $krate as cut;
                #[allow(dead_code)]
                pub mod encs {
                    include!("encs.rs");
                }
            }
            use $krate::DecodeErrorCause;
            static ALL: std::sync::LazyLock<Vec<cut_::encs::Enc>> = std::sync::LazyLock::new(cut_::encs::all);
            pub fn run(e: &Enc, encode: bool, x: &[u8], out: &mut [u8], end: bool) -> R {
                let o = &ALL[e.idx];
                let base = out.as_ptr() as usize;
                tracked(e, encode, x, (base, out.len()), end, || match encode {
                    true => match (o.enc)(text(x), out, end) {
                        Ok((s, n)) => R::Ok { w: s.len(), n, at: s.as_ptr() as usize == base },
                        Err(x) => R::Err { r: x.error_range, w: x.output_bytes_written, c: Some(x.character), invalid: true },
                    },
                    false => match (o.dec)(x, out, end) {
                        Ok((s, n)) => R::Ok { w: s.len(), n, at: s.as_ptr() as usize == base },
                        Err(x) => R::Err { r: x.error_range, w: x.output_bytes_written, c: None, invalid: x.cause == DecodeErrorCause::InvalidData },
                    },
                })
            }
        }
    };
}
build!(rel, text_encoding_rel);
build!(dev, text_encoding_dev);

pub type Run = fn(&Enc, bool, &[u8], &mut [u8], bool) -> R;
pub const OTHERS: [(&str, Run); 2] = [("optimised build without checks", rel::run), ("debug build", dev::run)];
