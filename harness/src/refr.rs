//! Independent GIF89a block reader
use crate::blocks::*;
use crate::refm::lzw_decode;
use crate::sym::*;
use gift::Error;
use gift::block::*;

/// What is known of a block
#[derive(Debug, Clone)]
pub struct RBlock {
    pub kind: usize,
    pub fields: Vec<u32>,
    pub subs: Vec<Vec<u8>>,
}

/// Compare without branching on values
pub fn same_rblock(a: &RBlock, b: &RBlock) -> bool {
    if a.kind != b.kind || a.fields.len() != b.fields.len() {
        return false;
    }
    let mut d = 0;
    for (x, y) in a.fields.iter().zip(&b.fields) {
        d |= x ^ y;
    }
    (d == 0) & same_subs(&a.subs, &b.subs)
}

// Kinds of error
pub const E_SIGNATURE: u32 = 1;
pub const E_VERSION: u32 = 2;
pub const E_CODE: u32 = 4;
pub const E_CONTROL: u32 = 8;
pub const E_EOF: u32 = 16;
pub const E_DATA: u32 = 32;
pub const E_LARGE: u32 = 64;
pub const E_SEQUENCE: u32 = 128;
pub const E_DIMS: u32 = 256;
pub const E_TABLE: u32 = 512;
pub const E_INDEX: u32 = 1024;
pub const E_IO: u32 = 2048;
pub const E_INT: u32 = 4096;
pub const E_RASTER: u32 = 8192;

/// Kind of an error of the library
pub fn kind_of(e: &Error) -> u32 {
    match e {
        Error::Io(_) => E_IO,
        Error::TryFromInt(_) => E_INT,
        Error::MalformedHeader => E_SIGNATURE,
        Error::UnsupportedVersion(_) => E_VERSION,
        Error::InvalidBlockCode => E_CODE,
        Error::InvalidBlockSequence => E_SEQUENCE,
        Error::MalformedGraphicControlExtension => E_CONTROL,
        Error::UnexpectedEndOfFile => E_EOF,
        Error::InvalidLzwData | Error::IncompleteImageData => E_DATA,
        Error::TooLargeImage => E_LARGE,
        Error::InvalidFrameDimensions => E_DIMS,
        Error::MissingColorTable => E_TABLE,
        Error::InvalidColorIndex => E_INDEX,
        Error::InvalidRasterDimensions => E_RASTER,
        #[allow(unreachable_patterns)]
        _ => 0,
    }
}

fn config(c: ColorTableConfig) -> [u32; 4] {
    [
        (c.existence() == ColorTableExistence::Present) as u32,
        (c.ordering() == ColorTableOrdering::Sorted) as u32,
        c.len() as u32,
        c.size_bytes() as u32,
    ]
}

/// View of a block through its getters
pub fn view(b: &Block) -> RBlock {
    let mut fields = Vec::new();
    let mut subs = Vec::new();
    let kind = match b {
        Block::Header(b) => {
            subs.push(b.version().to_vec());
            HEADER
        }
        Block::LogicalScreenDesc(b) => {
            fields.push(b.screen_width() as u32);
            fields.push(b.screen_height() as u32);
            fields.push(b.flags() as u32);
            fields.push(b.background_color_idx() as u32);
            fields.push(b.pixel_aspect_ratio() as u32);
            fields.push(b.color_resolution() as u32);
            fields.extend_from_slice(&config(b.color_table_config()));
            SCREEN
        }
        Block::GlobalColorTable(b) => {
            fields.push(b.len() as u32);
            subs.push(b.colors().to_vec());
            GLOBAL
        }
        Block::PlainText(b) => {
            subs = b.sub_blocks().to_vec();
            PLAIN
        }
        Block::GraphicControl(b) => {
            fields.push(b.flags() as u32);
            fields.push(u8::from(b.disposal_method()) as u32);
            fields.push(b.user_input() as u32);
            fields.push(b.delay_time_cs() as u32);
            fields.push(b.transparent_color_idx() as u32);
            fields.push(b.transparent_color().map_or(256, u32::from));
            CONTROL
        }
        Block::Comment(b) => {
            subs = b.comments().to_vec();
            COMMENT
        }
        Block::Application(b) => {
            subs = b.app_data().to_vec();
            fields.push(b.loop_count().map_or(65536, u32::from));
            APP
        }
        Block::Unknown(b) => {
            subs = b.sub_blocks().to_vec();
            subs.insert(0, b.ext_id().to_vec());
            UNKNOWN
        }
        Block::ImageDesc(b) => {
            fields.push(b.left() as u32);
            fields.push(b.top() as u32);
            fields.push(b.width() as u32);
            fields.push(b.height() as u32);
            fields.push(b.flags() as u32);
            fields.push(b.interlaced() as u32);
            fields.extend_from_slice(&config(b.color_table_config()));
            IMAGE
        }
        Block::LocalColorTable(b) => {
            fields.push(b.len() as u32);
            subs.push(b.colors().to_vec());
            LOCAL
        }
        Block::ImageData(b) => {
            subs.push(b.data().to_vec());
            DATA
        }
        Block::Trailer(_) => TRAILER,
        #[allow(unreachable_patterns)]
        _ => usize::MAX,
    };
    RBlock { kind, fields, subs }
}

/// Flag bits to table presence, ordering, entries and bytes
fn table(flags: u8, sorted: u8) -> [u32; 4] {
    let there = (flags >> 7) as u32;
    let entries = there * (2 << (flags & 7) as u32);
    [there, ((flags & sorted) != 0) as u32, entries, 3 * entries]
}

/// Reader of blocks
pub struct RefReader<'a> {
    data: &'a [u8],
    at: usize,
    next: usize,
    size: usize,
    entries: usize,
    limit: usize,
}

impl<'a> RefReader<'a> {
    pub fn new(data: &'a [u8], limit: usize) -> Self {
        RefReader { data, at: 0, next: HEADER, size: 0, entries: 0, limit }
    }

    /// Position
    pub fn at(&self) -> usize {
        self.at
    }

    /// Is everything read?
    pub fn done(&self) -> bool {
        self.at == self.data.len()
    }

    fn take(&mut self, n: usize) -> Result<&'a [u8], u32> {
        if self.data.len() - self.at < n {
            return Err(E_EOF);
        }
        let s = &self.data[self.at..self.at + n];
        self.at += n;
        Ok(s)
    }

    fn subs(&mut self) -> Result<Vec<Vec<u8>>, u32> {
        let mut v = Vec::new();
        loop {
            let n = conc(self.take(1)?[0] as usize);
            if n == 0 {
                return Ok(v);
            }
            v.push(self.take(n)?.to_vec());
        }
    }

    /// The next block, or the kinds of error allowed instead of it
    pub fn next(&mut self) -> Result<RBlock, u32> {
        let mut fields = Vec::new();
        let mut subs = Vec::new();
        let kind;
        match self.next {
            HEADER => {
                kind = HEADER;
                let b = self.take(6)?;
                if b[0] != b'G' || b[1] != b'I' || b[2] != b'F' {
                    return Err(E_SIGNATURE);
                }
                if b[3] != b'8' || (b[4] != b'7' && b[4] != b'9') || b[5] != b'a' {
                    return Err(E_VERSION);
                }
                subs.push(b[3..].to_vec());
                self.next = SCREEN;
            }
            SCREEN => {
                kind = SCREEN;
                let b = self.take(7)?;
                fields.push(b[0] as u32 + 256 * b[1] as u32);
                fields.push(b[2] as u32 + 256 * b[3] as u32);
                fields.push(b[4] as u32);
                fields.push(b[5] as u32);
                fields.push(b[6] as u32);
                fields.push(2 << (b[4] >> 4 & 7) as u32);
                let t = table(b[4], 0x08);
                fields.extend_from_slice(&t);
                self.entries = conc(t[2] as usize);
                self.next = if self.entries > 0 { GLOBAL } else { TRAILER };
            }
            GLOBAL | LOCAL => {
                kind = self.next;
                subs.push(self.take(3 * self.entries)?.to_vec());
                fields.push(self.entries as u32);
                self.next = if kind == GLOBAL { TRAILER } else { DATA };
            }
            DATA => {
                kind = DATA;
                let min = self.take(1)?[0];
                // other sizes have no defined meaning
                assume((2..=8).contains(&min));
                let min = conc(min as usize) as u32;
                let from = self.at;
                let r = self.subs();
                let mut all = Vec::new();
                if let Err(e) = r {
                    // an invalid code may have been seen before the end
                    let _ = from;
                    return Err(e | E_DATA);
                }
                for s in r? {
                    all.extend_from_slice(&s);
                }
                match lzw_decode(min, &all, self.size) {
                    Ok(d) => subs.push(d),
                    Err(_) => return Err(E_DATA),
                }
                self.next = TRAILER;
            }
            _ => {
                let c = self.take(1)?[0];
                if c == 0x3B {
                    kind = TRAILER;
                } else if c == 0x2C {
                    kind = IMAGE;
                    let b = self.take(9)?;
                    for i in 0..4 {
                        fields.push(b[2 * i] as u32 + 256 * b[2 * i + 1] as u32);
                    }
                    fields.push(b[8] as u32);
                    fields.push((b[8] >> 6 & 1) as u32);
                    let t = table(b[8], 0x20);
                    fields.extend_from_slice(&t);
                    let sz = fields[2] as usize * fields[3] as usize;
                    if sz > self.limit {
                        return Err(E_LARGE);
                    }
                    self.size = conc(sz);
                    self.entries = conc(t[2] as usize);
                    self.next = if self.entries > 0 { LOCAL } else { DATA };
                } else if c == 0x21 {
                    let l = self.take(1)?[0];
                    if l == 0xF9 {
                        kind = CONTROL;
                        // sub-block by sub-block
                        let n = conc(self.take(1)?[0] as usize);
                        assume(n > 0);
                        let b = self.take(n)?;
                        if n != 4 {
                            return Err(E_CONTROL);
                        }
                        fields.push(b[0] as u32);
                        fields.push((b[0] >> 2 & 7) as u32);
                        fields.push((b[0] >> 1 & 1) as u32);
                        fields.push(b[1] as u32 + 256 * b[2] as u32);
                        fields.push(b[3] as u32);
                        fields.push(if b[0] & 1 != 0 { b[3] as u32 } else { 256 });
                        // one sub-block is prescribed
                        let n = self.take(1)?[0];
                        assume(n == 0);
                    } else {
                        subs = self.subs()?;
                        if l == 0x01 {
                            kind = PLAIN;
                        } else if l == 0xFE {
                            kind = COMMENT;
                        } else if l == 0xFF {
                            kind = APP;
                            let mut n = 65536;
                            if subs.len() == 2
                                && (same_bytes(&subs[0], b"NETSCAPE2.0")
                                    || same_bytes(&subs[0], b"ANIMEXTS1.0"))
                                && subs[1].len() == 3
                                && subs[1][0] == 1
                            {
                                n = subs[1][1] as u32 + 256 * subs[1][2] as u32;
                            }
                            fields.push(n);
                        } else {
                            kind = UNKNOWN;
                            subs.insert(0, vec![l]);
                        }
                    }
                } else {
                    return Err(E_CODE);
                }
            }
        }
        Ok(RBlock { kind, fields, subs })
    }
}
