//! Every block read back equals the block that was written
use crate::blocks::*;
use crate::sym::*;
use crate::{bad, ck, entries};
use gift::block::*;
use gift::{Decoder, Encoder};

/// Write the blocks and read them back
fn round_trip(blocks: &[Block]) {
    let mut v = Vec::new();
    let mut enc = Encoder::new(&mut v).into_block_enc();
    for b in blocks {
        ck!(enc.encode(b.clone()).is_ok());
    }
    drop(enc);
    let mut dec = Decoder::new(&v[..]).max_image_sz(None).into_blocks();
    for b in blocks {
        let Some(Ok(got)) = dec.next() else {
            bad!();
            return;
        };
        ck!(same_block(b, &got));
        ck!(*b == got);
    }
    ck!(dec.next().is_none());
    cover(1);
    out(v.len() as u64);
}

/// Header and screen descriptor, with a colour table of `bits` size bits
/// (none if it is 8)
fn start(bits: usize, blocks: &mut Vec<Block>) {
    let v = if flip() { *b"89a" } else { *b"87a" };
    blocks.push(Header::with_version(v).into());
    blocks.push(any_block(SCREEN, bits).0);
    if bits < 8 {
        blocks.push(any_block(GLOBAL, bits).0);
    }
}

/// Extension or complete image
fn group(kind: usize, shape: usize, blocks: &mut Vec<Block>) {
    match kind {
        IMAGE => {
            blocks.push(any_block(IMAGE, shape).0);
            if shape < 8 {
                blocks.push(any_block(LOCAL, shape).0);
            }
            blocks.push(any_block(DATA, if shape < 8 { 2 } else { 4 }).0);
        }
        _ => blocks.push(any_block(kind, shape).0),
    }
}

const EXTS: [usize; 7] = [PLAIN, CONTROL, COMMENT, APP, UNKNOWN, IMAGE, LOOP];

entries! {
    // one group of each kind and shape: kind, shape, screen colour table
    c05_one {
        let mut b = Vec::new();
        start(param(2), &mut b);
        group(param(0), param(1), &mut b);
        b.push(Trailer::default().into());
        round_trip(&b);
    }
    // sequences of groups with few shapes
    c05_seq {
        let mut b = Vec::new();
        start(8, &mut b);
        for _ in 0..param(0) {
            let kind = EXTS[choose(7)];
            let shape = match kind {
                IMAGE => [8, 0][choose(2)],
                CONTROL | LOOP => 0,
                _ => choose(4),
            };
            group(kind, shape, &mut b);
        }
        b.push(Trailer::default().into());
        round_trip(&b);
    }
    // sequences of one group after fixed ones: number of those
    c05_many {
        let mut b = Vec::new();
        start(8, &mut b);
        for i in 0..param(0) {
            item(i, param(0));
            let kind = EXTS[i % 7];
            if kind == IMAGE {
                let mut d = ImageData::new(1);
                d.data_mut().push(i as u8);
                b.push(ImageDesc::default().with_left(word()).with_width(1).with_height(1).into());
                b.push(d.into());
                continue;
            }
            let shape = match kind {
                CONTROL | LOOP => 0,
                _ => i / 7 % 5,
            };
            group(kind, shape, &mut b);
        }
        item(0, 0);
        let kind = EXTS[choose(7)];
        group(kind, if kind == IMAGE { 0 } else { 3 }, &mut b);
        b.push(Trailer::default().into());
        round_trip(&b);
    }
    // image data of many sub-blocks: pixels before and choices of length
    c05_big {
        let n = param(0) + choose(param(1));
        let mut d = ImageData::new(n);
        let mut x = 7u32;
        for _ in 0..n {
            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
            d.data_mut().push((x >> 24) as u8);
        }
        d.data_mut().push(255);
        d.data_mut().push(byte() & 3);
        let mut b = Vec::new();
        start(8, &mut b);
        let len = d.data().len() as u16;
        b.push(ImageDesc::default().with_width(len).with_height(1).into());
        b.push(d.into());
        b.push(any_block(COMMENT, 1).0);
        b.push(Trailer::default().into());
        round_trip(&b);
    }
}
