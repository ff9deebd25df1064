//! Errors describe themselves and the error they wrap
use crate::sym::*;
use crate::{bad, ck, entries};
use gift::Error;
use std::error::Error as _;
use crate::io::KINDS;
use std::io::{self, ErrorKind};

/// Text of a system error
#[cfg(all(feature = "ir", not(feature = "command")))]
#[unsafe(no_mangle)]
unsafe extern "C" fn __xpg_strerror_r(e: std::ffi::c_int, buf: *mut u8, n: usize) -> std::ffi::c_int {
    let text = format!("system error {e}\0");
    if text.len() > n {
        return 34;
    }
    for (i, b) in text.bytes().enumerate() {
        unsafe { *buf.add(i) = b };
    }
    0
}

const MESSAGES: [&str; 5] = ["what happened", "", "x", "é\n", "a message that is much longer than the others are, to be sure"];

fn same(a: &str, b: &str) -> bool {
    crate::blocks::same_bytes(a.as_bytes(), b.as_bytes())
}

/// Is this the error in a converted one?
fn wraps(e: &Error, kind: ErrorKind, code: Option<i32>) -> bool {
    let Error::Io(x) = e else { return false };
    let Some(s) = e.source().and_then(|s| s.downcast_ref::<io::Error>()) else { return false };
    let ok = |e: &io::Error| e.kind() == kind && e.raw_os_error() == code;
    ok(x) && ok(s)
}

/// Something ending with an error through the question mark
fn fail(e: io::Error) -> gift::Result<()> {
    Err(e)?;
    Ok(())
}

fn number(n: u16) -> gift::Result<u8> {
    Ok(u8::try_from(n)?)
}

entries! {
    // errors with no other inside
    c29_plain {
        let (e, name) = match choose(12) {
            0 => (Error::MalformedHeader, "MalformedHeader"),
            1 => (Error::InvalidBlockCode, "InvalidBlockCode"),
            2 => (Error::InvalidBlockSequence, "InvalidBlockSequence"),
            3 => (Error::MalformedGraphicControlExtension, "MalformedGraphicControlExtension"),
            4 => (Error::UnexpectedEndOfFile, "UnexpectedEndOfFile"),
            5 => (Error::InvalidLzwData, "InvalidLzwData"),
            6 => (Error::TooLargeImage, "TooLargeImage"),
            7 => (Error::IncompleteImageData, "IncompleteImageData"),
            8 => (Error::InvalidFrameDimensions, "InvalidFrameDimensions"),
            9 => (Error::MissingColorTable, "MissingColorTable"),
            10 => (Error::InvalidColorIndex, "InvalidColorIndex"),
            _ => (Error::InvalidRasterDimensions, "InvalidRasterDimensions"),
        };
        ck!(e.source().is_none());
        ck!(same(&e.to_string(), name));
        ck!(same(&format!("{e:?}"), name));
        cover(1);
    }
    // any unsupported version
    c29_version {
        let v = [byte(), byte(), byte()];
        let e = Error::UnsupportedVersion(v);
        ck!(e.source().is_none());
        let want = format!("UnsupportedVersion([{}, {}, {}])", v[0], v[1], v[2]);
        ck!(same(&e.to_string(), &want));
        cover(1);
    }
    // input and output errors
    c29_io {
        let k = choose(KINDS.len() + 1);
        let kind = if k < KINDS.len() { KINDS[k] } else { ErrorKind::Interrupted };
        let message = MESSAGES[choose(MESSAGES.len())];
        let mk = |n| match n {
            0 => io::Error::from(kind),
            1 => io::Error::new(kind, message),
            // another error inside
            _ => io::Error::new(kind, Error::from(io::Error::new(ErrorKind::NotFound, message))),
        };
        let n = choose(3);
        let e = Error::from(mk(n));
        ck!(wraps(&e, kind, None));
        ck!(matches!(&e, Error::Io(x) if x.get_ref().is_some() == (n > 0)));
        ck!(matches!(&e, Error::Io(x) if x.get_ref().is_some_and(|x| x.is::<Error>()) == (n > 1)));
        let text = mk(n).to_string();
        ck!(same(&e.to_string(), &text));
        if let Some(s) = e.source() {
            ck!(same(&s.to_string(), &text));
        }
        let Err(e) = fail(mk(n)) else {
            bad!();
            return;
        };
        ck!(wraps(&e, kind, None));
        cover(1);
    }
    // errors of the system
    c29_system {
        let code = word() as i32;
        let e = Error::from(io::Error::from_raw_os_error(code));
        let Error::Io(x) = &e else {
            bad!();
            return;
        };
        ck!(x.raw_os_error() == Some(code));
        let s = e.source().and_then(|s| s.downcast_ref::<io::Error>());
        ck!(s.and_then(|s| s.raw_os_error()) == Some(code));
        cover(1);
    }
    // text of errors of the system
    c29_text {
        let n = choose(140) as i32;
        let code = match n {
            134 => -1,
            135 => 255,
            136 => 65536,
            137 => i32::MAX,
            138 => i32::MIN,
            139 => 524,
            _ => n,
        };
        let x = io::Error::from_raw_os_error(code);
        let (text, kind) = (x.to_string(), x.kind());
        let e = if flip() { Error::from(x) } else { fail(x).err().unwrap_or(Error::MalformedHeader) };
        ck!(wraps(&e, kind, Some(code)));
        ck!(same(&e.to_string(), &text));
        if let Some(s) = e.source() {
            ck!(same(&s.to_string(), &text));
        }
        cover(1);
    }
    // integers out of range
    c29_int {
        let n = word();
        match number(n) {
            Ok(b) => {
                ck!(n == b as u16);
                cover(1);
            }
            Err(e) => {
                ck!(n > 255);
                ck!(matches!(e, Error::TryFromInt(_)));
                let want = u8::try_from(300u16).err().map(|e| e.to_string()).unwrap_or_default();
                ck!(same(&e.to_string(), &want));
                let Some(s) = e.source() else {
                    bad!();
                    return;
                };
                ck!(s.is::<std::num::TryFromIntError>());
                ck!(same(&s.to_string(), &want));
                cover(2);
            }
        }
    }
}
