//! A file copied block by block or frame by frame keeps its contents
use crate::blocks::*;
use crate::compose::*;
use crate::gifw::*;
use crate::items::*;
use crate::refr::*;
use crate::sym::*;
use crate::{bad, ck, entries};
use gift::{Decoder, Encoder};

const LIMIT: usize = 12;

/// Copy a file by its blocks, or nothing if it can not be decoded
fn by_blocks(data: &[u8], limit: Option<usize>) -> Option<Vec<u8>> {
    let mut v = Vec::new();
    let mut enc = Encoder::new(&mut v).into_block_enc();
    for b in Decoder::new(data).max_image_sz(limit).into_blocks() {
        ck!(enc.encode(b.ok()?).is_ok());
    }
    drop(enc);
    Some(v)
}

/// Copy a file by its preamble and frames
fn by_frames(data: &[u8]) -> Option<Vec<u8>> {
    let mut v = Vec::new();
    let mut dec = Decoder::new(data).into_frames();
    let mut enc = Encoder::new(&mut v).into_frame_enc();
    ck!(enc.encode_preamble(&dec.preamble().ok()??).is_ok());
    for f in dec {
        ck!(enc.encode_frame(&f.ok()?).is_ok());
    }
    ck!(enc.encode_trailer().is_ok());
    drop(enc);
    Some(v)
}

/// Does the copy have the same blocks, and the same bytes other than those of
/// pixels?
fn same_contents(a: &[u8], b: &[u8], limit: usize) {
    let mut ra = RefReader::new(a, limit);
    let mut rb = RefReader::new(b, limit);
    loop {
        let (sa, sb) = (ra.at(), rb.at());
        let (Ok(x), Ok(y)) = (ra.next(), rb.next()) else {
            bad!();
            return;
        };
        ck!(x.kind == y.kind);
        ck!(same_rblock(&x, &y));
        if x.kind != DATA {
            ck!(same_bytes(&a[sa..ra.at()], &b[sb..rb.at()]));
        }
        if x.kind == TRAILER {
            break;
        }
    }
    ck!(rb.done());
}

/// Do both files show the same?
fn same_pictures(a: &[u8], b: &[u8], n: usize) {
    let (x, y) = (all_items(a, STEPS), all_items(b, STEPS));
    ck!(x.len() == n && y.len() == n);
    for (x, y) in x.iter().zip(&y) {
        ck!(same_item(x, y));
    }
    let mut da = Decoder::new(a).into_frames();
    let mut db = Decoder::new(b).into_frames();
    let (Ok(Some(x)), Ok(Some(y))) = (da.preamble(), db.preamble()) else {
        bad!();
        return;
    };
    ck!(same_preamble(&x, &y));
}

entries! {
    // what precedes the arbitrary bytes, number of them
    c28_bytes {
        let mut v = Vec::new();
        header(&mut v);
        if param(0) > 0 {
            screen(&mut v, 2, 2, 0, 0, 0);
        }
        match param(0) {
            2 => {
                image(&mut v, 0, 0, 2, 2, 0);
                pixels(&mut v, 2, &[0, 1, 1, 0]);
            }
            3 => {
                image(&mut v, 0, 0, 2, 1, 0);
                v.extend([2, param(1) as u8]);
            }
            _ => (),
        }
        v.extend(bytes(param(1)));
        if param(0) == 3 {
            v.extend([0, 0x3B]);
        }
        match by_blocks(&v, Some(LIMIT)) {
            Some(c) => {
                cover(1);
                same_contents(&v, &c, LIMIT);
                out_bytes(&c);
            }
            None => cover(2),
        }
    }
    // extensions with any label and contents of a shape
    c28_ext {
        let mut v = Vec::new();
        header(&mut v);
        screen(&mut v, 2, 2, 0, 0, 0);
        for i in 0..2 {
            let label = byte();
            assume(label != 0xF9);
            let subs = subs(param(i));
            let r: Vec<&[u8]> = subs.iter().map(|b| &b[..]).collect();
            extension(&mut v, label, &r);
        }
        trailer(&mut v);
        match by_blocks(&v, Some(LIMIT)) {
            Some(c) => {
                ck!(same_bytes(&v, &c));
                cover(1);
            }
            None => bad!(),
        }
    }
    // sample files
    c28_sample {
        let s = sample(param(0));
        let Some(c) = by_blocks(&s.data, None) else {
            bad!();
            return;
        };
        same_contents(&s.data, &c, usize::MAX);
        same_pictures(&s.data, &c, s.frames.len());
        cover(1);
        let Some(c) = by_frames(&s.data) else {
            bad!();
            return;
        };
        same_pictures(&s.data, &c, s.frames.len());
        cover(2);
        out(c.len() as u64);
    }
    // frames of all kinds: number, width, height
    c28_movie {
        let (w, h) = (param(1) as u16, param(2) as u16);
        let mut v = Vec::new();
        let global = Some(bytes(12));
        write_start(&mut v, w, h, &global);
        if flip() {
            looping(&mut v, word());
        }
        for (i, mut f) in movie(param(0), w, h, true, true).into_iter().enumerate() {
            if i < 4 {
                if let Some(c) = &mut f.control {
                    c.1 = word();
                }
                f.flags |= (byte() & 1) << 6;
            } else {
                f.flags |= (i as u8 & 1) << 6;
            }
            write_frame(&mut v, &f);
        }
        trailer(&mut v);
        for c in [by_blocks(&v, None), by_frames(&v)] {
            let Some(c) = c else {
                bad!();
                return;
            };
            same_pictures(&v, &c, param(0));
        }
        cover(1);
    }
}
