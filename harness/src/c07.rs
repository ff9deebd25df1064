//! Block fields are parsed from the bytes GIF89a prescribes
use crate::blocks::*;
use crate::gifw::*;
use crate::refr::*;
use crate::sym::*;
use crate::{bad, ck, entries};
use gift::Decoder;

const LIMIT: usize = 12;

fn compare(data: &[u8]) {
    let mut dec = Decoder::new(data).max_image_sz(Some(LIMIT)).into_blocks();
    let mut r = RefReader::new(data, LIMIT);
    loop {
        let got = dec.next();
        match r.next() {
            Ok(want) => {
                let Some(Ok(got)) = got else {
                    bad!();
                    return;
                };
                let got = view(&got);
                ck!(got.kind == want.kind);
                ck!(same_rblock(&got, &want));
                cover(want.kind as u32 + 1);
                out(got.kind as u64);
                if want.kind == TRAILER {
                    break;
                }
            }
            Err(e) => {
                let Some(Err(got)) = got else {
                    bad!();
                    return;
                };
                ck!(kind_of(&got) & e != 0);
                if let gift::Error::UnsupportedVersion(v) = got {
                    ck!(same_bytes(&v, &data[3..6]));
                }
                cover(100 + e);
                out(1000 + e as u64);
                break;
            }
        }
    }
    ck!(dec.next().is_none());
}

entries! {
    // what precedes the arbitrary bytes, number of them, number of blocks
    c07_bytes {
        let mut v = Vec::new();
        if param(0) > 0 {
            header(&mut v);
        }
        if param(0) > 1 {
            screen(&mut v, 2, 2, 0, 0, 0);
        }
        if param(0) > 2 {
            image(&mut v, 0, 0, 2, 2, 0);
            pixels(&mut v, 2, &[0, 1, 1, 0]);
        }
        if param(0) > 3 {
            for i in 0..param(2) {
                match i % 5 {
                    0 => extension(&mut v, 0xFE, &[b"ab", b"c"]),
                    1 => extension(&mut v, 0x01, &[b"abc"]),
                    2 => extension(&mut v, 0x44, &[]),
                    3 => control(&mut v, 4, 5, 6),
                    _ => {
                        image(&mut v, 0, 0, 1, 1, 0x80);
                        v.extend_from_slice(&[1, 2, 3, 4, 5, 6]);
                        pixels(&mut v, 2, &[1]);
                    }
                }
            }
        }
        v.extend(bytes(param(1)));
        compare(&v);
    }
    // any screen descriptor and colour table of given size
    c07_screen {
        let mut v = Vec::new();
        header(&mut v);
        v.extend(any_block(SCREEN, param(0)).1);
        if param(0) < 8 {
            v.extend(bytes(6 << param(0)));
        }
        v.push(0x3B);
        compare(&v);
    }
    // any image descriptor (width fixed) and colour table
    c07_image {
        let mut v = Vec::new();
        header(&mut v);
        screen(&mut v, 2, 2, 0, 0, 0);
        let flags = if param(1) == 8 { byte() & 0x7F } else { byte() & 0x78 | 0x80 | param(1) as u8 };
        let (l, t, a) = (word(), word(), word());
        if param(0) > 0 {
            image(&mut v, l, t, param(0) as u16, a, flags);
        } else {
            image(&mut v, l, t, a, 1, flags);
        }
        if param(1) < 8 {
            v.extend(bytes(6 << param(1)));
        }
        pixels(&mut v, 3, &[byte() & 7, byte() & 7, 1, 2, 3, 4, 5, 6, 7, 1, 2, 3]);
        v.push(0x3B);
        compare(&v);
    }
    // any label with arbitrary contents of a shape, two of them
    c07_ext {
        let mut v = Vec::new();
        header(&mut v);
        screen(&mut v, 2, 2, 0, 0, 0);
        for i in 0..2 {
            let label = byte();
            let subs = subs(param(i));
            let r: Vec<&[u8]> = subs.iter().map(|b| &b[..]).collect();
            extension(&mut v, label, &r);
        }
        v.push(0x3B);
        compare(&v);
    }
    // loop counts with one arbitrary byte in the name, or other sub-blocks
    c07_loop {
        let mut v = Vec::new();
        header(&mut v);
        screen(&mut v, 2, 2, 0, 0, 0);
        let mut name = if flip() { *b"NETSCAPE2.0" } else { *b"ANIMEXTS1.0" };
        let i = choose(12);
        if i < 11 {
            name[i] = byte();
        }
        match choose(4) {
            0 => extension(&mut v, 0xFF, &[&name, &bytes(3)]),
            1 => extension(&mut v, 0xFF, &[&name, &bytes(choose(5) + 1)]),
            2 => extension(&mut v, 0xFF, &[&name, &bytes(3), &bytes(1)]),
            _ => extension(&mut v, 0xFF, &[&name]),
        }
        v.push(0x3B);
        compare(&v);
    }
}
