//! Encoded image data is conforming LZW for any decoder
use crate::gifw::*;
use crate::refm::*;
use crate::sym::*;
use crate::{bad, ck, entries};

/// Check the written image data with an independent strict reader
fn strict(px: &[u8], width: usize, height: usize) {
    let v = write_image(px, width, height);
    // header, screen, image descriptor
    let mut at = 6 + 7 + 10;
    ck!(v.len() > at);
    let min = conc(v[at] as usize);
    at += 1;
    ck!((2..=8).contains(&min));
    let mut fits = true;
    for p in px {
        fits &= min == 8 || *p < (1u8 << (min & 7));
    }
    ck!(fits);
    // sub-blocks
    let mut data = Vec::with_capacity(v.len());
    loop {
        ck!(at < v.len());
        let n = conc(v[at] as usize);
        at += 1;
        if n == 0 {
            break;
        }
        ck!(at + n <= v.len());
        data.extend_from_slice(&v[at..at + n]);
        at += n;
    }
    ck!(at + 1 == v.len() && v[at] == 0x3B);
    // codes
    let mut d = Lzw::new(min as u32);
    let mut got = Vec::with_capacity(px.len());
    let (mut acc, mut n) = (0u32, 0u32);
    let mut pos = 0;
    let mut first = true;
    while got.len() < px.len() {
        while n < d.width() {
            if pos >= data.len() {
                bad!();
                return;
            }
            acc |= (data[pos] as u32) << n;
            pos += 1;
            n += 8;
        }
        let w = d.width();
        let code = (acc & ((1 << w) - 1)) as u16;
        acc >>= w;
        n -= w;
        if first {
            ck!(code == 1 << min);
            first = false;
        }
        // the encoder must clear the table before it is exceeded
        let full = d.table() == 4096;
        if d.code(code, &mut got).is_err() {
            bad!();
            return;
        }
        ck!(!full || d.table() < 4096 || d.ended || got.len() >= px.len());
        ck!(!d.ended);
    }
    ck!(got.len() == px.len());
    let mut same = true;
    for (a, b) in px.iter().zip(&got) {
        same &= a == b;
    }
    ck!(same);
    if d.cleared && d.max_table == 4096 {
        cover(2);
    }
    cover(1);
    out(data.len() as u64);
}

entries! {
    // any pixels: count, values below 1 << bits, shape
    c04_any {
        let (n, bits) = (param(0), param(1));
        let mask = ((1u32 << bits) - 1) as u8;
        let px: Vec<u8> = bytes(n).iter().map(|b| b & mask).collect();
        match param(2) {
            0 => strict(&px, n, 1),
            _ => strict(&px, 1, n),
        }
    }
    // see c03_deep
    c04_deep {
        let px = deep_pixels();
        strict(&px, px.len(), 1);
    }
    // runs
    c04_runs {
        let n = param(0);
        let m = ((1u32 << param(1)) - 1) as u8;
        let (a, b) = (byte() & m, m);
        let k = 1 + choose(n);
        let mut px = vec![a; k];
        for _ in k..n {
            px.push(b);
        }
        strict(&px, n, 1);
    }
    // data lengths around the sub-block limit
    c04_len {
        let n = param(0) + choose(param(1));
        let mut px = vec![255];
        let mut x = 3u32;
        while px.len() < n {
            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
            px.push((x >> 24) as u8);
        }
        px.push(byte() & 3);
        strict(&px, px.len(), 1);
    }
    // large images: rows of 256 pixels, bits of a pixel, length of runs,
    // where one pixel may have other values
    c04_big {
        let px = big_pixels();
        strict(&px, 256, px.len() / 256);
    }
}
