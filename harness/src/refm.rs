//! Reference models, written from the GIF89a specification.

/// Outcome of reference LZW decoding
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum LzwErr {
    BadCode,
    TooShort,
}

/// LZW decoder state, kept as strings given by (prefix, last byte, length)
#[derive(Clone)]
pub struct Lzw {
    min: u32,
    width: u32,
    prefix: Vec<u16>,
    last: Vec<u8>,
    first: Vec<u8>,
    len: Vec<u16>,
    prev: Option<u16>,
    acc: u32,
    n: u32,
    skip: u32,
    pub ended: bool,
    pub cleared: bool,
    pub max_table: usize,
}

impl Lzw {
    pub fn new(min: u32) -> Self {
        let mut d = Lzw {
            min,
            width: min + 1,
            prefix: vec![0; 4096],
            last: vec![0; 4096],
            first: vec![0; 4096],
            len: Vec::with_capacity(4096),
            prev: None,
            acc: 0,
            n: 0,
            skip: 0,
            ended: false,
            cleared: false,
            max_table: 0,
        };
        for i in 0..1usize << min {
            d.last[i] = i as u8;
            d.first[i] = i as u8;
        }
        d.clear();
        d
    }

    fn clear(&mut self) {
        let lits = 1usize << self.min;
        self.len.clear();
        self.len.resize(lits, 1);
        self.len.push(0);
        self.len.push(0);
        self.width = self.min + 1;
        self.prev = None;
    }

    pub fn table(&self) -> usize {
        self.len.len()
    }

    pub fn width(&self) -> u32 {
        self.width
    }

    pub fn pending(&self) -> u32 {
        self.n
    }

    /// Emit the string of a code
    fn emit(&self, code: u16, out: &mut Vec<u8>) {
        let n = self.len[code as usize] as usize;
        let at = out.len();
        out.resize(at + n, 0);
        let mut c = code;
        let mut i = n;
        while i > 0 {
            i -= 1;
            out[at + i] = self.last[c as usize];
            c = self.prefix[c as usize];
        }
    }

    /// Process one code
    pub fn code(&mut self, code: u16, out: &mut Vec<u8>) -> Result<(), LzwErr> {
        let clear = 1u16 << self.min;
        if code == clear {
            self.cleared = true;
            self.clear();
            return Ok(());
        }
        if code == clear + 1 {
            self.ended = true;
            return Ok(());
        }
        let next = self.len.len();
        match self.prev {
            None => {
                if code > clear {
                    return Err(LzwErr::BadCode);
                }
                out.push(code as u8);
            }
            Some(prev) => {
                if code as usize > next {
                    return Err(LzwErr::BadCode);
                }
                let old = (code as usize) < next;
                let f = if old {
                    self.first[code as usize]
                } else {
                    self.first[prev as usize]
                };
                if next < 4096 {
                    self.prefix[next] = prev;
                    self.last[next] = f;
                    self.first[next] = self.first[prev as usize];
                    let n = self.len[prev as usize] + 1;
                    self.len.push(n);
                } else if !old {
                    return Err(LzwErr::BadCode);
                }
                self.emit(code, out);
                if self.len.len() == 1 << self.width && self.width < 12 {
                    self.width += 1;
                }
            }
        }
        if self.len.len() > self.max_table {
            self.max_table = self.len.len();
        }
        self.prev = Some(code);
        Ok(())
    }

    /// Ignore bits of the next byte (codes already processed)
    pub fn skip(&mut self, n: u32) {
        self.skip = n;
    }

    /// Feed bytes until they run out, the end code is met or enough pixels
    /// have been produced
    pub fn feed(&mut self, data: &[u8], size: usize, out: &mut Vec<u8>) -> Result<(), LzwErr> {
        for b in data {
            if self.ended || out.len() >= size {
                break;
            }
            self.acc |= ((*b >> self.skip) as u32) << self.n;
            self.n += 8 - self.skip;
            self.skip = 0;
            while self.n >= self.width && !self.ended && out.len() < size {
                let w = self.width;
                let code = (self.acc & ((1 << w) - 1)) as u16;
                self.acc >>= w;
                self.n -= w;
                self.code(code, out)?;
            }
        }
        Ok(())
    }
}

/// Decode complete image data
pub fn lzw_decode(min: u32, data: &[u8], size: usize) -> Result<Vec<u8>, LzwErr> {
    let mut d = Lzw::new(min);
    let mut out = Vec::new();
    d.feed(data, size, &mut out)?;
    if out.len() < size {
        return Err(LzwErr::TooShort);
    }
    out.truncate(size);
    Ok(out)
}
