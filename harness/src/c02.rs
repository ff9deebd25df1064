//! Compressed image data is decoded as GIF LZW defines
use crate::gifw::*;
use crate::refm::*;
use crate::sym::*;
use crate::{bad, ck, entries};
use gift::Decoder;
use gift::block::Block;

/// Valid codes filling the table up to `target` entries (nothing if it is
/// zero): a packer in the middle of the stream, the reference decoder there
/// and the pixels so far
fn fill(min: u32, target: usize) -> (Bits, Lzw, Vec<u8>) {
    let mut b = Bits::default();
    let mut d = Lzw::new(min);
    let mut px = Vec::new();
    if target > 0 {
        let lits = 1u16 << min;
        b.put(lits, d.width());
        let mut i = 0u16;
        while d.table() < target {
            let code = i % lits;
            b.put(code, d.width());
            if d.code(code, &mut px).is_err() {
                bad!();
            }
            i += 1;
        }
    }
    (b, d, px)
}

/// Decode a file with one image and compare with the reference
fn compare(min: u32, data: &[u8], size: usize, chunks: &[usize]) {
    compare_from(min, data, size, chunks, Lzw::new(min), Vec::new(), data);
}

/// The reference starts with state `d`, pixels `px` and data `tail`
fn compare_from(
    min: u32,
    data: &[u8],
    size: usize,
    chunks: &[usize],
    mut d: Lzw,
    mut px: Vec<u8>,
    tail: &[u8],
) {
    let mut v = Vec::new();
    header(&mut v);
    screen(&mut v, size as u16, 1, 0, 0, 0);
    image(&mut v, 0, 0, size as u16, 1, 0);
    v.push(min as u8);
    let mut rest = data;
    for c in chunks {
        let (a, b) = rest.split_at(*c);
        if !a.is_empty() {
            v.push(a.len() as u8);
            v.extend_from_slice(a);
        }
        rest = b;
    }
    sub_blocks(&mut v, rest, 255);
    trailer(&mut v);
    let mut blocks = Decoder::new(&v[..]).max_image_sz(None).into_blocks();
    for _ in 0..3 {
        ck!(matches!(blocks.next(), Some(Ok(_))));
    }
    let got = blocks.next();
    let mut r = d.feed(tail, size, &mut px);
    if r.is_ok() && px.len() < size {
        r = Err(LzwErr::TooShort);
    }
    match r {
        Ok(()) => {
            let Some(Ok(Block::ImageData(d))) = got else {
                bad!();
                return;
            };
            ck!(d.data().len() == size);
            let mut same = true;
            for (a, b) in px.iter().zip(d.data()) {
                same &= a == b;
            }
            ck!(same);
            cover(1);
            ck!(matches!(blocks.next(), Some(Ok(Block::Trailer(_)))));
            ck!(blocks.next().is_none());
            let at = size.saturating_sub(3);
            out_bytes(&d.data()[at..]);
        }
        Err(e) => {
            match e {
                LzwErr::BadCode => cover(2),
                LzwErr::TooShort => cover(3),
            }
            ck!(matches!(got, Some(Err(_))));
            ck!(blocks.next().is_none());
            out(99);
        }
    }
}

/// Put `n` chosen codes at the end of a stream and compare with the reference
fn chosen(mut b: Bits, mut d: Lzw, mut px: Vec<u8>, min: u32, n: usize, sub: usize, extra: usize) {
    let clear = 1u16 << min;
    let mut fresh = px.is_empty();
    for _ in 0..n {
        let t = d.table() as u16;
        let w = d.width();
        let code = match choose(if fresh { 1 } else { 5 }) {
            1 if t < 4096 => t,
            2 if t > clear + 2 => t - 1,
            3 if t > clear + 2 => clear + 2,
            4 => clear,
            _ => byte() as u16 & (clear - 1),
        };
        b.put(code, w);
        fresh = code == clear;
        if d.code(code, &mut px).is_err() {
            bad!();
        }
    }
    // large images are brought to whole rows
    let width = if px.len() < 65536 { px.len() } else { 256 };
    while width > 0 && !px.len().is_multiple_of(width) {
        b.put(0, d.width());
        if d.code(0, &mut px).is_err() {
            bad!();
        }
    }
    b.put(clear + 1, d.width());
    let data = b.finish();
    let height = if width > 0 { px.len() / width } else { 1 };
    // the last rows may be more than declared
    let height = height - extra;
    let size = width * height;
    px.truncate(size);
    let mut v = Vec::with_capacity(data.len() * 2);
    header(&mut v);
    screen(&mut v, 1, 1, 0, 0, 0);
    image(&mut v, 0, 0, width as u16, height as u16, 0);
    v.push(min as u8);
    sub_blocks(&mut v, &data, sub);
    trailer(&mut v);
    let got = Decoder::new(&v[..]).max_image_sz(None).into_blocks().nth(3);
    let Some(Ok(Block::ImageData(d))) = got else {
        bad!();
        return;
    };
    ck!(d.data().len() == size);
    let mut same = true;
    for (a, b) in px.iter().zip(d.data()) {
        same &= a == b;
    }
    ck!(same);
    cover(1);
}

entries! {
    // min, bytes, image size
    c02_any {
        let (min, n) = (param(0) as u32, param(1));
        let data = bytes(n);
        compare(min, &data, param(2), &[]);
    }
    // the same data split into sub-blocks anywhere
    c02_split {
        let (min, n) = (param(0) as u32, param(1));
        let data = bytes(n);
        let a = choose(n + 1);
        let b = choose(n + 1 - a);
        compare(min, &data, param(2), &[a, b]);
    }
    // min, table size before the arbitrary bytes, bytes, pixels to follow
    c02_deep {
        let (min, target, n) = (param(0) as u32, param(1), param(2));
        let (b, mut d, px) = fill(min, target);
        let k = b.pending();
        let done = b.bytes.len();
        let mut data = b.finish();
        let mut tail = bytes(n);
        if k > 0 {
            tail[0] = (tail[0] << k) | data[done];
            data.truncate(done);
        }
        data.extend_from_slice(&tail);
        let size = px.len() + param(3);
        d.skip(k);
        compare_from(min, &data, size, &[], d, px, &tail);
    }
    // min, table size before the codes, number of codes chosen from: any
    // pixel value, the entry being added, the latest, the first and clear
    c02_codes {
        let (min, target, n) = (param(0) as u32, param(1), param(2));
        let (mut b, d, px) = fill(min, target);
        if target == 0 {
            b.put(1 << min, min + 1);
        }
        chosen(b, d, px, min, n, 255, 0);
    }
    // min, number of strings of 1, 2, 3... pixels before the codes, number
    // of codes, bytes in each sub-block
    c02_run {
        let (min, n) = (param(0) as u32, param(1));
        let mut b = Bits::default();
        let mut d = Lzw::new(min);
        let mut px = Vec::with_capacity(n * n);
        let clear = 1u16 << min;
        b.put(clear, min + 1);
        for i in 0..n {
            let code = match i {
                0 => clear - 1,
                1 => 0,
                2 => d.table() as u16 - 1,
                _ => d.table() as u16,
            };
            b.put(code, d.width());
            if d.code(code, &mut px).is_err() {
                bad!();
            }
        }
        chosen(b, d, px, min, param(2), param(3), param(4));
    }
}
