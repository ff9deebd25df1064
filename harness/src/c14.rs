//! The looping iterator repeats the animation as declared
use crate::compose::*;
use crate::gifw::*;
use crate::sym::*;
use crate::{bad, ck, entries};
use gift::{Decoder, Step};
use pix::el::Pixel;
use pix::rgb::Rgb;

/// File with `n` one-pixel steps after a given start
fn file(count: Option<u16>, n: usize) -> Vec<u8> {
    let mut v = Vec::new();
    write_start(&mut v, 1, 1, &Some(bytes(6)));
    if let Some(c) = count {
        looping(&mut v, c);
    }
    for i in 0..n {
        item(i, n);
        let mut f = frame(Rect { l: 0, t: 0, w: 1, h: 1 }, None, vec![byte() & 1], 2);
        if i > 0 {
            f.control = Some((0, word() | 1, byte()));
        }
        write_frame(&mut v, &f);
    }
    v
}

fn same_step(a: &Step, b: &Step) -> bool {
    let (x, y) = (a.raster().pixels(), b.raster().pixels());
    let mut ok = x.len() == y.len();
    for (p, q) in x.iter().zip(y) {
        ok &= u8::from(Rgb::red(*p)) == u8::from(Rgb::red(*q));
        ok &= u8::from(Rgb::green(*p)) == u8::from(Rgb::green(*q));
        ok &= u8::from(Rgb::blue(*p)) == u8::from(Rgb::blue(*q));
        ok &= u8::from(p.alpha()) == u8::from(q.alpha());
    }
    ok & (a.delay_time_cs().unwrap_or(0) == b.delay_time_cs().unwrap_or(0))
        & (a.transparent_color().map_or(256, u16::from) == b.transparent_color().map_or(256, u16::from))
}

/// Compare `passes` passes with what the count says
fn passes(v: &[u8], count: Option<u16>, n: usize, passes: usize) {
    let mut once = Vec::new();
    for s in Decoder::new(v).into_steps() {
        let Ok(s) = s else {
            bad!();
            return;
        };
        once.push(s);
    }
    ck!(once.len() == n);
    let mut it = Decoder::new(v).into_iter();
    for pass in 0..passes {
        let more = match count {
            _ if n == 0 => false,
            None => pass < 1,
            Some(0) => true,
            Some(c) => pass <= c as usize,
        };
        if !more {
            ck!(it.next().is_none());
            ck!(it.next().is_none());
            cover(1);
            out(pass as u64);
            return;
        }
        for s in &once {
            let Some(Ok(got)) = it.next() else {
                bad!();
                return;
            };
            ck!(same_step(&got, s));
        }
    }
    cover(2);
    out(passes as u64);
}

entries! {
    // any count: steps, passes looked at
    c14_any {
        let count = if param(2) == 0 { Some(word()) } else { None };
        let n = param(0);
        let mut v = file(count, n);
        trailer(&mut v);
        passes(&v, count, n, param(1));
    }
    // counts from a base: steps, base, bits
    c14_near {
        let count = param(1) as u16 + (byte() & ((1u16 << param(2)) - 1) as u8) as u16;
        let count = if param(1) > 1000 { conc(count as usize) as u16 } else { count };
        let mut v = file(Some(count), param(0));
        trailer(&mut v);
        passes(&v, Some(count), param(0), param(1) + (1 << param(2)) + 2);
    }
    // counts from a list: steps, 0 for every count up to 300
    c14_some {
        const COUNTS: [u16; 20] =
            [400, 499, 500, 511, 512, 513, 600, 700, 800, 900, 999, 1000, 1001, 1023, 1024, 2000, 4095, 4096, 9999, 10000];
        let count = if param(1) == 0 { 1 + choose(300) as u16 } else { COUNTS[choose(COUNTS.len())] };
        let mut v = file(Some(count), param(0));
        trailer(&mut v);
        passes(&v, Some(count), param(0), usize::MAX);
    }
    // the last of several counts is used, and either name
    c14_last {
        let mut v = Vec::new();
        write_start(&mut v, 1, 1, &Some(bytes(6)));
        looping(&mut v, word());
        let c = 1 + (byte() & 3);
        let name = if flip() { b"NETSCAPE2.0" } else { b"ANIMEXTS1.0" };
        extension(&mut v, 0xFF, &[name, &[1, c, 0]]);
        extension(&mut v, 0xFE, &[&bytes(2)]);
        let f = frame(Rect { l: 0, t: 0, w: 1, h: 1 }, None, vec![byte() & 1], 2);
        write_frame(&mut v, &f);
        trailer(&mut v);
        passes(&v, Some(c as u16), 1, 7);
    }
    // a step of any kind after others: number, most passes looked at
    c14_kind {
        let (w, h) = [(1, 1), (3, 2), (2, 5)][choose(3)];
        let count = match choose(5) {
            0 => None,
            1 => Some(0),
            2 => Some(1),
            3 => Some(2),
            _ => Some(word()),
        };
        let mut v = Vec::new();
        write_start(&mut v, w, h, &Some(bytes(12)));
        if let Some(c) = count {
            looping(&mut v, c);
        }
        for i in 0..param(0) {
            let last = i + 1 == param(0);
            let r = if i == 0 || (last && flip()) { Rect { l: 0, t: 0, w, h } } else { Rect { l: w - 1, t: h - 1, w: 1, h: 1 } };
            let px = (0..r.w * r.h).map(|i| if i == 0 { byte() & 3 } else { i as u8 & 3 }).collect();
            let mut f = frame(r, if last && flip() { Some(bytes(12)) } else { None }, px, 2);
            f.flags = byte() & 0x38;
            if last && flip() {
                f.control = Some((byte() & 0xE3 | (choose(4) as u8) << 2, word(), byte()));
            }
            write_frame(&mut v, &f);
        }
        trailer(&mut v);
        passes(&v, count, param(0), param(1));
    }
    // an error after some steps is reported, and other steps after it
    c14_error {
        let count = if flip() { Some(word()) } else { None };
        let n = param(0);
        let mut v = file(count, n);
        let mut more = 0;
        match choose(if n > 300 { 2 } else { 8 }) {
            // the file ends
            0 => (),
            // bad block
            1 => v.push(0x22),
            // bad control
            2 => v.extend([0x21, 0xF9, 3, 1, 2, 3, 0]),
            // too few pixels
            3 => {
                image(&mut v, 0, 0, 2, 1, 0);
                pixels(&mut v, 2, &[1]);
            }
            // no meaning
            4 => {
                image(&mut v, 0, 0, 1, 1, 0);
                v.extend([2, 1, 0x3C, 0]);
            }
            // bad index or rectangle, or two controls
            k => {
                if k == 7 {
                    control(&mut v, 0, word(), byte());
                    control(&mut v, 0, word(), byte());
                }
                let f = frame(Rect { l: (k == 6) as u16, t: 0, w: 1, h: 1 }, None, vec![if k == 5 { 3 } else { 0 }], 2);
                write_frame(&mut v, &f);
                more = (k == 7) as usize;
                for _ in 0..choose(3) {
                    write_frame(&mut v, &frame(Rect { l: 0, t: 0, w: 1, h: 1 }, None, vec![byte() & 1], 2));
                    more += 1;
                }
                trailer(&mut v);
            }
        }
        let mut once = Vec::new();
        for s in Decoder::new(&v[..]).into_steps().flatten() {
            once.push(s);
        }
        ck!(once.len() == n + more);
        let mut found = false;
        let mut i = 0;
        for s in Decoder::new(&v[..]).into_iter().take(once.len() + 2) {
            match s {
                Ok(s) => {
                    ck!(!once.is_empty() && same_step(&s, &once[i % once.len()]));
                    i += 1;
                }
                Err(_) => found = true,
            }
        }
        ck!(found);
        ck!(i >= once.len());
        cover(1);
    }
}
