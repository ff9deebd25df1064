//! Independent writer of GIF byte streams, following the GIF89a layout.

/// Little-endian 16-bit value
pub fn w16(v: &mut Vec<u8>, x: u16) {
    v.push((x & 0xFF) as u8);
    v.push((x >> 8) as u8);
}

/// Signature and version
pub fn header(v: &mut Vec<u8>) {
    v.extend_from_slice(b"GIF89a");
}

/// Logical screen descriptor
pub fn screen(v: &mut Vec<u8>, w: u16, h: u16, flags: u8, bg: u8, aspect: u8) {
    w16(v, w);
    w16(v, h);
    v.push(flags);
    v.push(bg);
    v.push(aspect);
}

/// Graphic control extension
pub fn control(v: &mut Vec<u8>, flags: u8, delay: u16, trans: u8) {
    v.extend_from_slice(&[0x21, 0xF9, 4, flags]);
    w16(v, delay);
    v.push(trans);
    v.push(0);
}

/// Extension with sub-blocks
pub fn extension(v: &mut Vec<u8>, label: u8, subs: &[&[u8]]) {
    v.push(0x21);
    v.push(label);
    for s in subs {
        v.push(s.len() as u8);
        v.extend_from_slice(s);
    }
    v.push(0);
}

/// Loop count extension
pub fn looping(v: &mut Vec<u8>, count: u16) {
    let c = [1, (count & 0xFF) as u8, (count >> 8) as u8];
    extension(v, 0xFF, &[b"NETSCAPE2.0", &c]);
}

/// Image descriptor
pub fn image(v: &mut Vec<u8>, l: u16, t: u16, w: u16, h: u16, flags: u8) {
    v.push(0x2C);
    w16(v, l);
    w16(v, t);
    w16(v, w);
    w16(v, h);
    v.push(flags);
}

/// Trailer
pub fn trailer(v: &mut Vec<u8>) {
    v.push(0x3B);
}

/// Packs codes of varying width
#[derive(Default)]
pub struct Bits {
    pub bytes: Vec<u8>,
    acc: u32,
    n: u32,
}

impl Bits {
    pub fn put(&mut self, code: u16, width: u32) {
        self.acc |= (code as u32) << self.n;
        self.n += width;
        while self.n >= 8 {
            self.bytes.push((self.acc & 0xFF) as u8);
            self.acc >>= 8;
            self.n -= 8;
        }
    }
    pub fn finish(mut self) -> Vec<u8> {
        if self.n > 0 {
            self.bytes.push((self.acc & 0xFF) as u8);
        }
        self.bytes
    }
    pub fn pending(&self) -> u32 {
        self.n
    }
}

/// Split data into sub-blocks of at most `max` bytes
pub fn sub_blocks(v: &mut Vec<u8>, data: &[u8], max: usize) {
    for c in data.chunks(max) {
        v.push(c.len() as u8);
        v.extend_from_slice(c);
    }
    v.push(0);
}

/// Image data holding literal codes only; a clear code is repeated so that
/// the code width never changes.  Pixels must be below `1 << min`.
pub fn literal_codes(min: u32, pixels: &[u8]) -> Vec<u8> {
    let clear = 1u16 << min;
    let run = (clear - 2) as usize;
    let mut b = Bits::default();
    for (i, p) in pixels.iter().enumerate() {
        if i % run == 0 {
            b.put(clear, min + 1);
        }
        b.put(*p as u16, min + 1);
    }
    if pixels.is_empty() {
        b.put(clear, min + 1);
    }
    b.put(clear + 1, min + 1);
    b.finish()
}

/// Image data block with literal codes
pub fn pixels(v: &mut Vec<u8>, min: u32, px: &[u8]) {
    v.push(min as u8);
    let data = literal_codes(min, px);
    sub_blocks(v, &data, 255);
}

/// Colour table flag bits for a table with `2 << bits` entries
pub fn table_flags(bits: u8) -> u8 {
    0x80 | bits
}

/// Simulated LZW encoder, telling how large the table is
pub struct Sim {
    min: u32,
    child: Vec<u16>,
    sibling: Vec<u16>,
    data: Vec<u8>,
    cur: Option<u16>,
}

impl Sim {
    pub fn new(min: u32) -> Self {
        let mut s = Sim {
            min,
            child: Vec::with_capacity(4100),
            sibling: Vec::with_capacity(4100),
            data: Vec::with_capacity(4100),
            cur: None,
        };
        s.clear();
        s
    }

    fn clear(&mut self) {
        let n = (1 << self.min) + 2;
        self.child.clear();
        self.child.resize(n, 0);
        self.sibling.clear();
        self.sibling.resize(n, 0);
        self.data.clear();
        self.data.resize(n, 0);
    }

    pub fn table(&self) -> usize {
        self.data.len()
    }

    /// Give one pixel; a full table is cleared
    pub fn pixel(&mut self, px: u8) {
        let Some(cur) = self.cur else {
            self.cur = Some(px as u16);
            return;
        };
        let mut c = self.child[cur as usize];
        while c != 0 && self.data[c as usize] != px {
            c = self.sibling[c as usize];
        }
        if c != 0 {
            self.cur = Some(c);
            return;
        }
        let new = self.data.len() as u16;
        self.data.push(px);
        self.child.push(0);
        self.sibling.push(self.child[cur as usize]);
        self.child[cur as usize] = new;
        if self.data.len() > 4096 {
            self.clear();
        }
        self.cur = Some(px as u16);
    }
}

/// Pseudo-random pixels below `1 << alpha` that bring an encoder's table to
/// `target` entries, `rounds` clears later; the first one is the largest value
/// with `min` bits
pub fn filling(min: u32, alpha: u32, target: usize, rounds: usize, seed: u32) -> Vec<u8> {
    let mask = ((1u32 << alpha) - 1) as u8;
    let top = ((1u32 << min) - 1) as u8;
    let mut v = vec![top];
    let mut s = Sim::new(min);
    s.pixel(top);
    let mut x = seed;
    let mut left = rounds;
    loop {
        let before = s.table();
        if left == 0 && before >= target {
            break;
        }
        x = x.wrapping_mul(1664525).wrapping_add(1013904223);
        let px = ((x >> 24) as u8) & mask;
        s.pixel(px);
        v.push(px);
        if s.table() < before {
            left = left.saturating_sub(1);
        }
    }
    v
}

/// Write a file with one image using the library's block encoder
pub fn write_image(px: &[u8], width: usize, height: usize) -> Vec<u8> {
    use gift::block::*;
    let mut v = Vec::with_capacity(px.len() * 2 + 64);
    let mut enc = gift::Encoder::new(&mut v).into_block_enc();
    let mut d = ImageData::new(px.len());
    d.data_mut().extend_from_slice(px);
    let desc = ImageDesc::default()
        .with_width(width as u16)
        .with_height(height as u16);
    let mut ok = enc.encode(Header::default()).is_ok();
    ok &= enc
        .encode(
            LogicalScreenDesc::default()
                .with_screen_width(width as u16)
                .with_screen_height(height as u16),
        )
        .is_ok();
    ok &= enc.encode(desc).is_ok();
    ok &= enc.encode(d).is_ok();
    ok &= enc.encode(Trailer::default()).is_ok();
    crate::ck!(ok);
    v
}

/// Pixels for the deep checks: filling pixels, then `count` arbitrary ones
/// below `1 << alpha`, one below `1 << last`, then `after` fixed ones
pub fn deep_pixels() -> Vec<u8> {
    use crate::sym::*;
    let (min, alpha) = (param(0) as u32, param(1) as u32);
    let mut px = filling(min, alpha, param(2), param(3), 1);
    let mask = ((1u32 << alpha) - 1) as u8;
    for _ in 0..param(4) {
        px.push(byte() & mask);
    }
    if param(5) > 0 {
        px.push(byte() & ((1u32 << param(5)) - 1) as u8);
    }
    let mut x = 7u32;
    for _ in 0..param(6) {
        x = x.wrapping_mul(1664525).wrapping_add(1013904223);
        px.push((x >> 24) as u8 & mask);
    }
    px
}

/// Pixels of a large image: `rows` of 256 pseudo-random pixels of `bits` bits
/// in runs, one of which has any value below a power of two (normally 4)
pub fn big_pixels() -> Vec<u8> {
    use crate::sym::*;
    let (rows, bits, run, at) = (param(0), param(1), param(2), param(3));
    let mut px = Vec::with_capacity(rows * 256);
    let mut x = 3u32;
    while px.len() < rows * 256 {
        x = x.wrapping_mul(1664525).wrapping_add(1013904223);
        let p = ((x >> 24) as u8) >> (8 - bits);
        for _ in 0..run {
            px.push(p);
        }
    }
    px.truncate(rows * 256);
    let more = if param(4) > 0 { param(4) } else { 2 };
    px[at] = byte() & ((1u32 << more) - 1) as u8;
    px
}
