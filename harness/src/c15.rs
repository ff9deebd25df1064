//! Encoded animations decode to the same pictures
use crate::blocks::*;
use crate::compose::*;
use crate::stepw::*;
use crate::sym::*;
use crate::{bad, ck, entries};
use gift::block::DisposalMethod;
use gift::{Decoder, Encoder, Step};

/// Table as it is found in the file
fn padded(colors: &[u8]) -> Vec<u8> {
    let mut v = colors.to_vec();
    while v.len() < 6 || !(v.len() / 3).is_power_of_two() {
        v.push(0);
    }
    v
}

/// A step to encode
struct StepSpec {
    colors: Vec<u8>,
    px: Vec<u8>,
    disposal: u8,
    delay: Option<u16>,
    trans: Option<u8>,
}

fn step(w: u32, h: u32, s: &StepSpec) -> Step {
    Step::with_indexed(raster(w, h, &s.px), palette(&s.colors))
        .with_disposal_method(match s.disposal {
            0 => DisposalMethod::NoAction,
            1 => DisposalMethod::Keep,
            2 => DisposalMethod::Background,
            3 => DisposalMethod::Previous,
            n => DisposalMethod::Reserved(n),
        })
        .with_delay_time_cs(s.delay)
        .with_transparent_color(s.trans)
}

fn compare(w: u16, h: u16, steps: &[StepSpec], global: Option<&[u8]>, count: Option<u16>) {
    let mut v = Vec::new();
    let mut enc = Encoder::new(&mut v).into_step_enc();
    if let Some(c) = count {
        enc = enc.with_loop_count(c);
    }
    if let Some(g) = global {
        enc = enc.with_global_color_table(&palette(g));
    }
    for s in steps {
        ck!(enc.encode_step(&step(w as u32, h as u32, s)).is_ok());
    }
    drop(enc);
    let mut frames = Decoder::new(&v[..]).into_frames();
    let Ok(Some(p)) = frames.preamble() else {
        bad!();
        return;
    };
    ck!(p.screen_width() == w && p.screen_height() == h);
    match (&p.loop_count_ext, count) {
        (Some(a), Some(c)) => ck!(a.loop_count() == Some(c)),
        (None, None) => (),
        _ => bad!(),
    }
    if let Some(g) = global {
        ck!(p.global_color_table.is_some_and(|t| t.colors().len() >= g.len() && same_bytes(&t.colors()[..g.len()], g)));
    }
    let mut got = Decoder::new(&v[..]).into_steps();
    let mut canvas = Canvas::new(w, h);
    for s in steps {
        let (Some(Ok(f)), Some(Ok(g))) = (frames.next(), got.next()) else {
            bad!();
            return;
        };
        ck!(u8::from(f.disposal_method()) == s.disposal);
        ck!(f.transparent_color() == s.trans);
        ck!(f.graphic_control_ext.unwrap_or_default().delay_time_cs() == s.delay.unwrap_or(0));
        let mut spec = frame(Rect { l: 0, t: 0, w, h }, Some(padded(&s.colors)), s.px.clone(), 2);
        let flags = s.disposal << 2 | s.trans.is_some() as u8;
        spec.control = Some((flags, s.delay.unwrap_or(0), s.trans.unwrap_or(0)));
        ck!(canvas.show(&spec, &None).same(&g));
        ck!(g.transparent_color() == s.trans);
        ck!(g.delay_time_cs().unwrap_or(0) == s.delay.unwrap_or(0));
        cover(1);
    }
    ck!(frames.next().is_none());
    ck!(got.next().is_none());
    out(v.len() as u64);
}

/// An index into a palette
fn index(n: usize) -> u8 {
    if n.is_power_of_two() { byte() & (n - 1) as u8 } else { small(n as u8) }
}

fn plain(colors: Vec<u8>, px: Vec<u8>) -> StepSpec {
    StepSpec { colors, px, disposal: 0, delay: None, trans: None }
}

entries! {
    // palette length, pixels, global table?
    c15_len {
        let (n, w) = (param(0), param(1));
        let colors = bytes(3 * n);
        let px: Vec<u8> = (0..w).map(|_| index(n)).collect();
        let global = match param(2) {
            0 => None,
            1 => Some(colors.clone()),
            _ => Some(bytes(3 * n)),
        };
        compare(w as u16, 1, &[plain(colors, px)], global.as_deref(), None);
    }
    // steps with the same or other palettes: steps, length, other length
    c15_seq {
        let (n, a, b) = (param(0), param(1), param(2));
        let first = bytes(3 * a);
        let global = match choose(4) {
            0 => None,
            1 => Some(first.clone()),
            2 => Some(bytes(3 * a)),
            _ => Some(bytes(3 * b)),
        };
        let mut steps = Vec::new();
        for i in 0..n {
            let colors = match if i == 0 { 0 } else { choose(3) } {
                0 => first.clone(),
                1 => bytes(3 * a),
                _ => bytes(3 * b),
            };
            let k = colors.len() / 3;
            steps.push(plain(colors, vec![index(k), index(k)]));
        }
        compare(1, 2, &steps, global.as_deref(), None);
    }
    // any delay, transparent colour, disposal and loop count
    c15_meta {
        let colors = bytes(6);
        let mut steps = Vec::new();
        for _ in 0..param(0) {
            let mut s = plain(colors.clone(), vec![byte() & 1]);
            s.disposal = choose(8) as u8;
            s.delay = if flip() { Some(word()) } else { None };
            s.trans = if flip() { Some(byte()) } else { None };
            steps.push(s);
        }
        let count = if flip() { Some(word()) } else { None };
        compare(1, 1, &steps, None, count);
    }
    // many steps with palettes of varying length: steps, global table?
    c15_many {
        let first = vec![1, 2, 3, 4, 5, 6];
        let mut steps = Vec::new();
        for i in 0..param(0) {
            let n = [2, 1, 3, 4, 5, 16, 2][i % 7];
            let colors = if i % 3 == 0 { first.clone() } else { (0..3 * n).map(|j| (i + j * j) as u8).collect() };
            let k = colors.len() / 3;
            let mut s = plain(colors, vec![(i % k) as u8, (i / 2 % k) as u8]);
            s.disposal = (i % 4) as u8;
            s.delay = if i % 4 == 0 { None } else { Some((i * 300) as u16) };
            s.trans = if i % 5 == 0 { Some((i % 3) as u8) } else { None };
            if i + 2 == param(0) {
                s.colors = bytes(6);
                s.px = vec![byte() & 1; 2];
                s.trans = Some(byte());
                s.delay = Some(word());
            }
            steps.push(s);
        }
        let global = if param(1) == 0 { None } else { Some(first) };
        compare(2, 1, &steps, global.as_deref(), Some(word()));
    }
    // two steps of any kind: size, palettes which differ in one colour or
    // length, control values, global table, loop count: palette length
    c15_kind {
        let n = param(0);
        prepare(n);
        prepare(if n < 256 { n + 1 } else { n - 1 });
        let (w, h) = [(1, 1), (1, 3), (3, 3), (4, 5), (17, 2)][choose(5)];
        let first: Vec<u8> = (0..3 * n).map(|i| (i * 7 + i / 90) as u8).collect();
        // one colour differs, or the length
        let mut other = first.clone();
        match choose(4) {
            0 => other[0] = byte(),
            1 => other[3 * n - 1] = byte(),
            2 => other[3 * (n / 2) + 1] = byte(),
            _ if n < 256 => other.extend(bytes(3)),
            _ => other.truncate(3 * n - 3),
        }
        let global = match choose(3) {
            0 => None,
            1 => Some(first.clone()),
            _ => Some(vec![9; 9]),
        };
        let mut steps = Vec::new();
        let kind = choose(4);
        let (disposal, trans) = if kind == 0 { (0, 0) } else { (choose(4) as u8, choose(3)) };
        for i in 0..2 {
            let colors = if i == 0 { first.clone() } else { other.clone() };
            let k = colors.len() / 3;
            let mut px: Vec<u8> = (0..w * h).map(|i| (i * 3 % k) as u8).collect();
            px[0] = (k - 1) as u8;
            px[w * h - 1] = (k / 2) as u8;
            let mut s = plain(colors, px);
            if kind & 1 << i != 0 {
                s.delay = Some(word());
                s.disposal = disposal;
                s.trans = [None, Some((k / 2) as u8), Some(255)][trans];
            }
            steps.push(s);
        }
        let count = if kind == 1 { None } else { Some(word()) };
        compare(w as u16, h as u16, &steps, global.as_deref(), count);
    }
    // large rasters: width, height, palette length
    c15_big {
        let (w, h, n) = (param(0), param(1), param(2));
        let colors: Vec<u8> = (0..3 * n).map(|i| (i * i / 3) as u8 ^ i as u8).collect();
        let mut steps = Vec::new();
        let mut x = 5u32;
        for _ in 0..2 {
            let mut px = Vec::with_capacity(w * h);
            for _ in 0..w * h {
                x = x.wrapping_mul(1664525).wrapping_add(1013904223);
                px.push(((x >> 16) as usize % n) as u8);
            }
            px[w * h * 9 / 10] = byte() & 1;
            px[w * h - 1] = byte() & 1;
            steps.push(plain(colors.clone(), px));
        }
        compare(w as u16, h as u16, &steps, None, None);
    }
    // raster sizes: largest width and height
    c15_size {
        let (w, h) = (1 + choose(param(0)), 1 + choose(param(1)));
        let px = (0..w * h).map(|_| byte() & 1).collect();
        compare(w as u16, h as u16, &[plain(bytes(6), px)], None, None);
    }
}
