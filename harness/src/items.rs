//! Sample files and the items the decoders give for them
use crate::blocks::*;
use crate::gifw::*;
use crate::refr::*;
use crate::sym::*;
use gift::block::*;
use gift::{Decoder, Error, Step};
use pix::el::Pixel;
use pix::rgb::Rgb;
use std::io::Read;

/// Kinds of iterator
pub const BLOCKS: usize = 0;
pub const FRAMES: usize = 1;
pub const STEPS: usize = 2;

/// A file with the positions where its blocks and frames end
#[derive(Default)]
pub struct Sample {
    pub data: Vec<u8>,
    pub blocks: Vec<usize>,
    pub frames: Vec<usize>,
    /// where the blocks before the first frame end
    pub start: usize,
}

impl Sample {
    fn block(&mut self) {
        self.blocks.push(self.data.len());
    }
    fn frame(&mut self) {
        self.block();
        self.frames.push(self.data.len());
    }

    /// Ends of the items of an iterator
    pub fn ends(&self, kind: usize) -> &[usize] {
        if kind == BLOCKS { &self.blocks } else { &self.frames }
    }

    /// Number of items complete in the first `at` bytes
    pub fn complete(&self, kind: usize, at: usize) -> usize {
        self.ends(kind).iter().filter(|e| **e <= at).count()
    }
}

/// One of many blocks or frames
fn many(s: &mut Sample, i: u16) {
    match i % 4 {
        0 => extension(&mut s.data, 0xFE, &[&[byte()], &[65]]),
        1 => extension(&mut s.data, 0x01, &[&[byte()]]),
        2 => control(&mut s.data, (i % 3 << 2) as u8, i, byte()),
        _ => {
            image(&mut s.data, i / 4 % 2, 0, 1, 1, 0);
            s.block();
            pixels(&mut s.data, 2, &[byte() & 1]);
            s.frame();
            return;
        }
    }
    s.block();
}

/// A file with arbitrary contents of its fields
///
/// 0: one small image; 1: comment, loop count, two frames with controls and a
/// local table; 2: other extensions and image data of several sub-blocks;
/// 3: full colour table and long comment; 4: 100 frames with other blocks
/// between them; 5, 6: an interlaced image of 40x30 or 300x220 pixels and a
/// small one; 7 to 10: see `varied`
pub fn sample(n: usize) -> Sample {
    if n > 6 {
        return varied(n - 7);
    }
    let mut s = Sample::default();
    header(&mut s.data);
    s.block();
    let (w, h) = match n {
        5 => (40, 30),
        6 => (300, 220),
        _ => (2, 1),
    };
    let bits = if n == 3 { 7 } else { 0 };
    screen(&mut s.data, w, h, 0x80 | (byte() & 0x78) | bits, byte(), byte());
    s.block();
    s.data.extend(bytes(6 << bits));
    s.block();
    match n {
        0 | 4..7 => (),
        3 => {
            extension(&mut s.data, 0xFE, &[&bytes(255), &bytes(3)]);
            s.block();
        }
        1 => {
            extension(&mut s.data, 0xFE, &[&bytes(2)]);
            s.block();
            looping(&mut s.data, word());
            s.block();
        }
        _ => {
            extension(&mut s.data, 0x01, &[&bytes(1), &bytes(2)]);
            s.block();
            extension(&mut s.data, 0x07, &[&bytes(3)]);
            s.block();
        }
    }
    s.start = s.data.len();
    if n == 1 {
        control(&mut s.data, 4, word(), byte());
        s.block();
    }
    image(&mut s.data, 0, 0, w, h, [0, 0x80, 0, 0, 0, 0x40, 0x40][n]);
    s.block();
    if n == 1 {
        s.data.extend(bytes(6));
        s.block();
    }
    let mut px: Vec<u8> = (0..w as usize * h as usize).map(|i| (i * i / 7) as u8 & 1).collect();
    px[0] = byte() & 1;
    px[w as usize * h as usize - 1] = byte() & 1;
    if n == 2 {
        s.data.push(2);
        sub_blocks(&mut s.data, &literal_codes(2, &px), 1);
    } else {
        pixels(&mut s.data, 2, &px);
    }
    s.frame();
    if n == 1 || n > 4 {
        extension(&mut s.data, 0xFE, &[&bytes(1)]);
        s.block();
        control(&mut s.data, 4, word(), byte());
        s.block();
        image(&mut s.data, 1, 0, 1, 1, 0);
        s.block();
        pixels(&mut s.data, 2, &[byte() & 1]);
        s.frame();
    }
    if n == 4 {
        for i in 0..400 {
            item(i, 400);
            many(&mut s, i as u16);
        }
        item(0, 0);
    }
    trailer(&mut s.data);
    s.block();
    s
}

/// A file of an extension and two frames, in which one thing varies, one path
/// for each: 0: kind and number of parts of the extension; 1: their length; 2:
/// sides, row order and control of the first image; 3: tables
fn varied(n: usize) -> Sample {
    let mut s = Sample::default();
    header(&mut s.data);
    s.block();
    let (w, h) = if n == 2 { (1 + choose(6) as u16, 1 + choose(5) as u16) } else { (2, 1) };
    let (global, local) = if n == 3 { (choose(9), choose(9)) } else { (0, 8) };
    assume(global < 8 || local < 8);
    let flags = if global < 8 { table_flags(global as u8) } else { 0 };
    screen(&mut s.data, w.max(2), h, flags | (byte() & 0x78), byte(), byte());
    s.block();
    if global < 8 {
        s.data.extend(bytes(6 << global));
        s.block();
    }
    if n < 2 {
        let label = [0xFE, 0x01, 0xFF, 0x77][choose(4)];
        let (count, len) = if n == 0 { (choose(8), 2) } else { (2, [1, 3, 4, 11, 12, 80, 128, 254, 255][choose(9)]) };
        let parts: Vec<Vec<u8>> = (0..count).map(|_| bytes(len)).collect();
        let parts: Vec<&[u8]> = parts.iter().map(|p| &p[..]).collect();
        extension(&mut s.data, label, &parts);
        s.block();
    }
    s.start = s.data.len();
    let mut flags = if local < 8 { table_flags(local as u8) } else { 0 };
    if n == 2 {
        let kind = choose(4);
        flags |= (kind as u8 & 1) << 6;
        if kind > 1 {
            control(&mut s.data, [0x08, 0x0D][kind - 2] | byte() & 0xE2, word(), 1);
            s.block();
        }
    }
    image(&mut s.data, 0, 0, w, h, flags);
    s.block();
    if local < 8 {
        s.data.extend(bytes(6 << local));
        s.block();
    }
    let mut px: Vec<u8> = (0..w as usize * h as usize).map(|i| (i * i / 7) as u8 & 1).collect();
    px[w as usize * h as usize - 1] = byte() & 1;
    pixels(&mut s.data, 2, &px);
    s.frame();
    image(&mut s.data, 1, 0, 1, 1, table_flags(0));
    s.block();
    s.data.extend(bytes(6));
    s.block();
    pixels(&mut s.data, 2, &[byte() & 1]);
    s.frame();
    trailer(&mut s.data);
    s.block();
    s
}

/// What an iterator gives
pub enum Item {
    Block(Block),
    Frame(Frame),
    Step(Step),
}

/// Iterator of one kind
pub enum Items<R: Read> {
    Blocks(gift::decode::Blocks<R>),
    Frames(gift::decode::Frames<R>),
    Steps(gift::decode::Steps<R>),
}

impl<R: Read> Items<R> {
    pub fn new(d: Decoder<R>, kind: usize) -> Self {
        match kind {
            BLOCKS => Items::Blocks(d.into_blocks()),
            FRAMES => Items::Frames(d.into_frames()),
            _ => Items::Steps(d.into_steps()),
        }
    }
    pub fn next(&mut self) -> Option<Result<Item, Error>> {
        match self {
            Items::Blocks(i) => i.next().map(|r| r.map(Item::Block)),
            Items::Frames(i) => i.next().map(|r| r.map(Item::Frame)),
            Items::Steps(i) => i.next().map(|r| r.map(Item::Step)),
        }
    }
}

/// Compare without branching on values
pub fn same_item(a: &Item, b: &Item) -> bool {
    match (a, b) {
        (Item::Block(a), Item::Block(b)) => same_block(a, b),
        (Item::Frame(a), Item::Frame(b)) => same_frames(a, b),
        (Item::Step(a), Item::Step(b)) => same_steps(a, b),
        _ => false,
    }
}

pub fn same_frames(a: &Frame, b: &Frame) -> bool {
    let control = match (a.graphic_control_ext, b.graphic_control_ext) {
        (Some(a), Some(b)) => same_control(a, b),
        (None, None) => true,
        _ => false,
    };
    let local = match (&a.local_color_table, &b.local_color_table) {
        (Some(a), Some(b)) => same_bytes(a.colors(), b.colors()),
        (None, None) => true,
        _ => false,
    };
    control
        & local
        & same_desc(&a.image_desc, &b.image_desc)
        & same_bytes(a.image_data.data(), b.image_data.data())
}

pub fn same_steps(a: &Step, b: &Step) -> bool {
    let (ra, rb) = (a.raster(), b.raster());
    if ra.width() != rb.width() || ra.height() != rb.height() {
        return false;
    }
    let mut ok = a.delay_time_cs().unwrap_or(0) == b.delay_time_cs().unwrap_or(0);
    ok &= a.transparent_color().map_or(256, u32::from) == b.transparent_color().map_or(256, u32::from);
    for (p, q) in ra.pixels().iter().zip(rb.pixels()) {
        ok &= u8::from(Rgb::red(*p)) == u8::from(Rgb::red(*q));
        ok &= u8::from(Rgb::green(*p)) == u8::from(Rgb::green(*q));
        ok &= u8::from(Rgb::blue(*p)) == u8::from(Rgb::blue(*q));
        ok &= u8::from(p.alpha()) == u8::from(q.alpha());
    }
    ok
}

/// All items of a valid file
pub fn all_items(data: &[u8], kind: usize) -> Vec<Item> {
    let mut v = Vec::new();
    let mut items = Items::new(Decoder::new(data), kind);
    while let Some(Ok(i)) = items.next() {
        v.push(i);
    }
    v
}

pub fn same_preamble(a: &Preamble, b: &Preamble) -> bool {
    let global = match (&a.global_color_table, &b.global_color_table) {
        (Some(a), Some(b)) => same_bytes(a.colors(), b.colors()),
        (None, None) => true,
        _ => false,
    };
    let count = match (&a.loop_count_ext, &b.loop_count_ext) {
        (Some(a), Some(b)) => same_subs(a.app_data(), b.app_data()),
        (None, None) => true,
        _ => false,
    };
    let mut ok = global
        & count
        & same_bytes(&a.header.version(), &b.header.version())
        & same_screen(a.logical_screen_desc, b.logical_screen_desc)
        & (a.comments.len() == b.comments.len());
    for (a, b) in a.comments.iter().zip(&b.comments) {
        ok &= same_subs(a.comments(), b.comments());
    }
    ok
}

/// Something which can not be decoded; returns the error it gives
pub fn wrong(v: &mut Vec<u8>, n: usize) -> u32 {
    match n {
        0 => {
            let b = byte();
            assume(b != 0x21 && b != 0x2C && b != 0x3B);
            v.push(b);
            E_CODE
        }
        1 => {
            let b = byte();
            assume(b != 0 && b != 4);
            v.extend([0x21, 0xF9, b]);
            v.extend(vec![0; 256]);
            E_CONTROL
        }
        2 => {
            image(v, 0, 0, 2, 1, 0);
            // a code which can not be next
            v.extend([2, 1, (byte() & 1) << 6 | 0x3C, 0]);
            E_DATA
        }
        3 => {
            // too few pixels
            image(v, 0, 0, 2, 1, 0);
            pixels(v, 2, &[byte() & 1]);
            E_DATA
        }
        // the same two with other sizes
        5 | 6 => {
            let (w, h) = (1 + choose(6) as u16, 1 + choose(5) as u16);
            assume(w * h > 1);
            image(v, 0, 0, w, h, byte() & 0x40);
            if n == 5 {
                v.extend([2, 1, (byte() & 1) << 6 | 0x3C, 0]);
            } else {
                let mut px = vec![1; [1, (w * h - 1) as usize][choose(2)]];
                px[0] = byte() & 1;
                pixels(v, 2, &px);
            }
            E_DATA
        }
        _ => {
            image(v, 0, 0, 255, 255, byte() & 0x40);
            E_LARGE
        }
    }
}
