//! Mismatched rasters are rejected and leave the file intact
use crate::io::*;
use crate::refr::*;
use crate::stepw::*;
use crate::sym::*;
use crate::{bad, ck, entries};
use gift::{Decoder, Encoder, Step};
use pix::rgb::Rgb;

/// Encode rasters of the given sizes and check what becomes of them
fn run(sizes: &[(usize, usize)], fixed: usize) {
    run_with(sizes, fixed, bytes(6), false);
}

/// The same with a palette, and steps of any kind
fn run_with(sizes: &[(usize, usize)], fixed: usize, colors: Vec<u8>, kinds: bool) {
    let log = Log::new();
    let mut enc = Encoder::new(log.clone()).into_step_enc();
    if kinds && flip() {
        enc = enc.with_loop_count(word());
    }
    if kinds && flip() {
        enc = enc.with_global_color_table(&palette(&colors[..3]));
    }
    let mut first = None;
    let mut kept = Vec::new();
    for (i, (w, h)) in sizes.iter().enumerate() {
        let px: Vec<u8> = if i < fixed { vec![1; w * h] } else { (0..w * h).map(|i| if i < 2 { byte() & 1 } else { i as u8 & 1 }).collect() };
        let mut s = Step::with_indexed(raster(*w as u32, *h as u32, &px), palette(&colors));
        if kinds && flip() {
            s = s.with_delay_time_cs(Some(word())).with_transparent_color(Some(255));
        }
        let before = log.len();
        let res = enc.encode_step(&s);
        if *w > 65535 || *h > 65535 {
            ck!(matches!(&res, Err(e) if kind_of(e) == E_INT));
            ck!(log.len() == before);
            cover(3);
        } else if first.is_some() && first != Some((*w, *h)) {
            ck!(matches!(&res, Err(e) if kind_of(e) == E_RASTER));
            ck!(log.len() == before);
            cover(2);
        } else {
            ck!(res.is_ok());
            first = Some((*w, *h));
            kept.push(px);
            cover(1);
        }
    }
    drop(enc);
    let v = log.bytes();
    out(v.len() as u64);
    let Some((w, h)) = first else {
        ck!(v.is_empty());
        return;
    };
    let mut steps = Decoder::new(&v[..]).into_steps();
    for px in &kept {
        let Some(Ok(s)) = steps.next() else {
            bad!();
            return;
        };
        let r = s.raster();
        ck!(r.width() as usize == w && r.height() as usize == h);
        let mut ok = true;
        for (p, i) in r.pixels().iter().zip(px) {
            let i = 3 * *i as usize;
            ok &= u8::from(Rgb::red(*p)) == colors[i];
            ok &= u8::from(Rgb::green(*p)) == colors[i + 1];
            ok &= u8::from(Rgb::blue(*p)) == colors[i + 2];
        }
        ck!(ok);
    }
    ck!(steps.next().is_none());
}

entries! {
    // steps, largest width and height
    c17_small {
        let mut sizes = Vec::new();
        for _ in 0..param(0) {
            sizes.push((1 + choose(param(1)), 1 + choose(param(2))));
        }
        run(&sizes, 0);
    }
    // many of one size, then any: number, steps, largest width and height
    c17_many {
        let mut sizes = vec![(2, 3); param(0)];
        for i in 0..param(0) {
            if i % 10 == 5 {
                sizes[i] = [(3, 2), (2, 2), (6, 1), (2, 4)][i / 10 % 4];
            }
        }
        for _ in 0..param(1) {
            sizes.push((1 + choose(param(2)), 1 + choose(param(3))));
        }
        run(&sizes, param(0));
    }
    // a raster and one whose width or height differs in one bit, or with sides
    // exchanged: width, height
    c17_bits {
        let (w, h) = (param(0), param(1));
        let k = choose(35);
        let other = match k {
            0..17 => (w ^ 1 << k, h),
            17..34 => (w, h ^ 1 << (k - 17)),
            _ => (h, w),
        };
        assume(other.0 > 0 && other.1 > 0);
        run(&[(w, h), other, (w, h)], usize::MAX);
    }
    // three steps of any kind, of which one has another size: size of palette
    c17_kind {
        prepare(param(0));
        let list = [(1, 1), (2, 3), (3, 2), (65536, 1), (3, 65536), (5, 7)];
        let first = list[choose(3)];
        let mut sizes = vec![first; 3];
        sizes[choose(3)] = list[choose(list.len())];
        let n = param(0);
        let colors = (0..3 * n).map(|i| (i * 5) as u8).collect();
        run_with(&sizes, usize::MAX, colors, true);
    }
    // sizes at the limits of 16 and 8 bits
    c17_limit {
        let list = [
            (1, 1),
            (65536, 1),
            (1, 65536),
            (65537, 1),
            (1, 65537),
            (257, 1),
            (1, 257),
            (65535, 1),
            (1, 65535),
            (3, 65536),
            (65536, 2),
            (131073, 1),
            (1, 131072),
        ];
        let mut sizes = Vec::new();
        for i in 0..param(0) {
            sizes.push(if i == param(1) { list[choose(list.len())] } else { list[param(2)] });
        }
        run(&sizes, usize::MAX);
    }
}
