//! Reference composition of frames into pictures, following GIF89a
use crate::gifw::*;
use crate::sym::*;
use crate::{bad, ck};
use gift::{Decoder, Step};
use pix::el::Pixel;
use pix::rgb::{Rgb, SRgba8};

/// Rectangle of a frame
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Rect {
    pub l: u16,
    pub t: u16,
    pub w: u16,
    pub h: u16,
}

/// Any rectangle inside a screen; one path for each
pub fn any_rect(w: u16, h: u16) -> Rect {
    let l = choose(w as usize) as u16;
    let t = choose(h as usize) as u16;
    Rect {
        l,
        t,
        w: 1 + choose((w - l) as usize) as u16,
        h: 1 + choose((h - t) as usize) as u16,
    }
}

/// A frame to be written and composed
#[derive(Clone)]
pub struct FrameSpec {
    /// flags, delay and transparent index of the control
    pub control: Option<(u8, u16, u8)>,
    pub rect: Rect,
    /// descriptor flags other than those of the table
    pub flags: u8,
    pub local: Option<Vec<u8>>,
    /// pixels in display order
    pub px: Vec<u8>,
    pub min: u32,
}

/// Size bits of a table
pub fn bits_of(table: &[u8]) -> u8 {
    let mut b = 0;
    while (6 << b) < table.len() {
        b += 1;
    }
    b
}

/// Order in which the rows of an interlaced image are stored
pub fn stored_rows(h: usize) -> Vec<usize> {
    let mut rows = Vec::new();
    for (start, step) in [(0, 8), (4, 8), (2, 4), (1, 2)] {
        let mut y = start;
        while y < h {
            rows.push(y);
            y += step;
        }
    }
    rows
}

/// Write the start of a file
pub fn write_start(v: &mut Vec<u8>, w: u16, h: u16, global: &Option<Vec<u8>>) {
    header(v);
    let flags = global.as_ref().map_or(0, |t| table_flags(bits_of(t)));
    screen(v, w, h, flags, byte(), byte());
    if let Some(t) = global {
        v.extend_from_slice(t);
    }
}

/// Write a frame
pub fn write_frame(v: &mut Vec<u8>, f: &FrameSpec) {
    if let Some((flags, delay, trans)) = f.control {
        control(v, flags, delay, trans);
    }
    let r = f.rect;
    let flags = f.flags | f.local.as_ref().map_or(0, |t| table_flags(bits_of(t)));
    image(v, r.l, r.t, r.w, r.h, flags);
    if let Some(t) = &f.local {
        v.extend_from_slice(t);
    }
    if f.flags & 0x40 != 0 {
        let mut px = Vec::new();
        let w = r.w as usize;
        for y in stored_rows(r.h as usize) {
            px.extend_from_slice(&f.px[y * w..(y + 1) * w]);
        }
        pixels(v, f.min, &px);
    } else {
        pixels(v, f.min, &f.px);
    }
}

/// The picture frames are drawn on
#[derive(Clone)]
pub struct Canvas {
    pub w: usize,
    pub h: usize,
    pub px: Vec<[u8; 4]>,
}

impl Canvas {
    pub fn new(w: u16, h: u16) -> Self {
        let (w, h) = (w as usize, h as usize);
        Canvas { w, h, px: vec![[0; 4]; w * h] }
    }

    /// Draw a frame; returns the picture shown
    pub fn show(&mut self, f: &FrameSpec, global: &Option<Vec<u8>>) -> Canvas {
        let table = f.local.as_ref().or(global.as_ref()).unwrap();
        let (flags, _, trans) = f.control.unwrap_or_default();
        let before = self.clone();
        let (l, t, w, h) = (f.rect.l as usize, f.rect.t as usize, f.rect.w as usize, f.rect.h as usize);
        for y in 0..h {
            for x in 0..w {
                let i = f.px[y * w + x];
                let at = (t + y) * self.w + l + x;
                let seen = (flags & 1 == 0) | (i != trans);
                let i = 3 * i as usize;
                let rgba = [table[i], table[i + 1], table[i + 2], 255];
                for (old, new) in self.px[at].iter_mut().zip(rgba) {
                    *old = select(seen, new, *old);
                }
            }
        }
        let shown = self.clone();
        match flags >> 2 & 7 {
            2 => {
                for y in 0..h {
                    for x in 0..w {
                        self.px[(t + y) * self.w + l + x] = [0; 4];
                    }
                }
            }
            3 => *self = before,
            _ => (),
        }
        shown
    }

    /// Is this the raster of a step?
    pub fn same(&self, s: &Step) -> bool {
        let r = s.raster();
        if r.width() as usize != self.w || r.height() as usize != self.h {
            return false;
        }
        let mut ok = true;
        for (p, want) in r.pixels().iter().zip(&self.px) {
            ok &= same_pixel(*p, want);
        }
        ok
    }
}

/// Choose between two values without branching
fn select(c: bool, a: u8, b: u8) -> u8 {
    let m = 0u8.wrapping_sub(c as u8);
    (a & m) | (b & !m)
}

fn same_pixel(p: SRgba8, want: &[u8; 4]) -> bool {
    let alpha = u8::from(p.alpha()) == want[3];
    let mut c = u8::from(Rgb::red(p)) == want[0];
    c &= u8::from(Rgb::green(p)) == want[1];
    c &= u8::from(Rgb::blue(p)) == want[2];
    // the colour of a fully transparent pixel does not matter
    alpha & (c | (want[3] == 0))
}

/// Decode the file and compare each step with the reference
pub fn compare(w: u16, h: u16, global: &Option<Vec<u8>>, frames: &[FrameSpec]) {
    let mut v = Vec::new();
    write_start(&mut v, w, h, global);
    for f in frames {
        write_frame(&mut v, f);
    }
    trailer(&mut v);
    let mut canvas = Canvas::new(w, h);
    let mut steps = Decoder::new(&v[..]).into_steps();
    for f in frames {
        let Some(Ok(s)) = steps.next() else {
            bad!();
            return;
        };
        let want = canvas.show(f, global);
        ck!(want.same(&s));
        let (flags, delay, trans) = f.control.unwrap_or_default();
        ck!(s.delay_time_cs().unwrap_or(0) == delay);
        ck!(s.transparent_color().map_or(256, u16::from) == if flags & 1 != 0 { trans as u16 } else { 256 });
        cover(1);
    }
    ck!(steps.next().is_none());
    out(frames.len() as u64);
}

pub fn frame(rect: Rect, local: Option<Vec<u8>>, px: Vec<u8>, min: u32) -> FrameSpec {
    FrameSpec { control: None, rect, flags: 0, local, px, min }
}

/// Fixed pseudo-random frames of all kinds on a screen with a global table of
/// 4 entries; `disposal` and `tables` tell whether they vary in those
pub fn movie(n: usize, w: u16, h: u16, disposal: bool, tables: bool) -> Vec<FrameSpec> {
    let mut x = 5u32;
    let mut next = |m: u32| {
        x = x.wrapping_mul(1664525).wrapping_add(1013904223);
        (x >> 16) % m
    };
    let mut frames = Vec::with_capacity(n);
    for _ in 0..n {
        let (l, t) = (next(w as u32) as u16, next(h as u32) as u16);
        let r = Rect { l, t, w: 1 + next((w - l) as u32) as u16, h: 1 + next((h - t) as u32) as u16 };
        let local = if tables && next(3) == 0 { Some((0..12).map(|_| next(256) as u8).collect()) } else { None };
        let px = (0..r.w as usize * r.h as usize).map(|_| next(4) as u8).collect();
        let mut f = frame(r, local, px, 2);
        f.flags = if next(3) == 0 { 0x40 } else { 0 };
        if next(4) > 0 {
            let d = if disposal { next(8) as u8 } else { 0 };
            f.control = Some((d << 2 | next(2) as u8, next(65536) as u16, next(4) as u8));
        }
        frames.push(f);
    }
    frames
}

/// After fixed frames, one of any rectangle, disposal, transparency, table and
/// row order, and two of one pixel
pub fn any_after(n: usize, w: u16, h: u16) {
    let mut frames = movie(n, w, h, true, true);
    let r = any_rect(w, h);
    let px = (0..r.w as usize * r.h as usize).map(|_| byte() & 3).collect();
    let local = if flip() { Some(bytes(12)) } else { None };
    let mut f = frame(r, local, px, 2);
    f.flags = byte() & 0x38 | (choose(2) as u8) << 6;
    let k = choose(9) as u8;
    if k < 8 {
        f.control = Some((byte() & 0xE2 | k << 2 | choose(2) as u8, word(), byte() & 3));
    }
    frames.push(f);
    for (l, t) in [(0, 0), (w - 1, h - 1)] {
        frames.push(frame(Rect { l, t, w: 1, h: 1 }, None, vec![byte() & 3], 2));
    }
    compare(w, h, &Some(bytes(12)), &frames);
}

/// Heights of frames of any kind
const HEIGHTS: [u16; 8] = [1, 2, 3, 4, 5, 8, 9, 13];

/// A table of size bits (8: none), arbitrary if it has up to 4 entries
pub fn some_table(bits: usize) -> Option<Vec<u8>> {
    match bits {
        8 => None,
        0 | 1 => Some(bytes(6 << bits)),
        _ => Some((0..6 << bits).map(|i| (i * 5 + i / 51) as u8).collect()),
    }
}

/// A frame of any kind: one of the heights, any table size, row order,
/// transparency and disposal, with two indices below `mask`
pub fn any_kind(h: u16, local: usize, global: usize, mask: u8) -> FrameSpec {
    let at = choose(2) as u16;
    let r = Rect { l: at, t: at, w: 1 + choose(2) as u16, h };
    let n = r.w as usize * r.h as usize;
    let few = if local < 8 { local } else { global };
    let fit = ((2u32 << few.min(7)) - 1) as u8;
    let mut px: Vec<u8> = (0..n).map(|i| (i * i / 2) as u8 & fit).collect();
    // of a large table, only some indices
    let some = [fit, 0, fit.wrapping_add(1) & mask, 255 & mask];
    let index = |k: usize| if few < 3 || few == 8 { byte() & mask } else { some[choose(k)] };
    px[n / 2] = index(1);
    px[n - 1] = index(4);
    let mut f = frame(r, some_table(local), px, 8);
    f.flags = byte() & 0x38 | (choose(2) as u8) << 6;
    let k = choose(9) as u8;
    if k < 8 {
        f.control = Some((byte() & 0xE2 | k << 2 | choose(2) as u8, word(), index(2)));
    }
    f
}

/// A frame of any kind between others: bits of the local and global table (8:
/// none)
pub fn any_kinds(local: usize, global: usize) {
    let h = HEIGHTS[choose(HEIGHTS.len())];
    let (sw, sh) = (3, h + 1);
    let table = some_table(global);
    let small = Some(vec![10, 20, 30, 40, 50, 60, 70, 80, 90, 100, 110, 120]);
    let mut frames = vec![frame(
        Rect { l: 0, t: 0, w: sw, h: sh },
        small.clone(),
        (0..sw as usize * sh as usize).map(|i| i as u8 & 3).collect(),
        2,
    )];
    let few = if local < 8 { local } else { global };
    frames.push(any_kind(h, local, global, ((2u32 << few) - 1) as u8));
    frames.push(frame(Rect { l: 1, t: 1, w: 1, h: 1 }, small, vec![3], 2));
    compare(sw, sh, &table, &frames);
}
