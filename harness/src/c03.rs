//! Image data survives being encoded and decoded
use crate::gifw::*;
use crate::sym::*;
use crate::{bad, ck, entries};
use gift::Decoder;
use gift::block::Block;

fn round_trip(px: &[u8], width: usize, height: usize) {
    let v = write_image(px, width, height);
    let mut blocks = Decoder::new(&v[..]).max_image_sz(None).into_blocks();
    for _ in 0..3 {
        ck!(matches!(blocks.next(), Some(Ok(_))));
    }
    let Some(Ok(Block::ImageData(d))) = blocks.next() else {
        bad!();
        return;
    };
    ck!(d.data().len() == px.len());
    let mut same = true;
    for (a, b) in px.iter().zip(d.data()) {
        same &= a == b;
    }
    ck!(same);
    ck!(matches!(blocks.next(), Some(Ok(Block::Trailer(_)))));
    ck!(blocks.next().is_none());
    cover(1);
    out(v.len() as u64);
}

entries! {
    // any pixels: count, values below 1 << bits, shape
    c03_any {
        let (n, bits) = (param(0), param(1));
        let mask = ((1u32 << bits) - 1) as u8;
        let px: Vec<u8> = bytes(n).iter().map(|b| b & mask).collect();
        match param(2) {
            0 => round_trip(&px, n, 1),
            1 => round_trip(&px, 1, n),
            _ => round_trip(&px, 2, n / 2),
        }
    }
    // any pixels after ones that fill the table: code size, bits of most
    // pixels, table entries, clears before, count, bits of one more pixel,
    // fixed pixels after them
    c03_deep {
        let px = deep_pixels();
        round_trip(&px, px.len(), 1);
    }
    // repeated pixels, any value and run of another value
    c03_runs {
        let n = param(0);
        let m = ((1u32 << param(1)) - 1) as u8;
        let (a, b) = (byte() & m, m);
        let k = 1 + choose(n);
        let mut px = vec![a; k];
        for _ in k..n {
            px.push(b);
        }
        round_trip(&px, n, 1);
    }
    // data lengths around the sub-block limit
    c03_len {
        let n = param(0) + choose(param(1));
        let mut px = vec![255];
        let mut x = 3u32;
        while px.len() < n {
            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
            px.push((x >> 24) as u8);
        }
        px.push(byte() & 3);
        round_trip(&px, px.len(), 1);
    }
    // large images: rows of 256 pixels, bits of a pixel, length of runs,
    // where one pixel may have other values
    c03_big {
        let px = big_pixels();
        round_trip(&px, 256, px.len() / 256);
    }
}
