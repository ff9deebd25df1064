//! Blocks with arbitrary contents, and the bytes GIF89a gives for them.
use crate::gifw::*;
use crate::sym::*;
use gift::block::*;

pub const HEADER: usize = 0;
pub const SCREEN: usize = 1;
pub const GLOBAL: usize = 2;
pub const PLAIN: usize = 3;
pub const CONTROL: usize = 4;
pub const COMMENT: usize = 5;
pub const APP: usize = 6;
pub const UNKNOWN: usize = 7;
pub const IMAGE: usize = 8;
pub const LOCAL: usize = 9;
pub const DATA: usize = 10;
pub const TRAILER: usize = 11;
pub const LOOP: usize = 12;

/// Lengths of the sub-blocks of an extension
pub const SHAPES: &[&[usize]] = &[
    &[],
    &[1],
    &[3],
    &[2, 1],
    &[1, 1, 1],
    &[11, 3],
    &[255],
    &[255, 1, 255],
    &[254],
    &[4, 4],
    &[12],
    &[4],
];

/// Arbitrary sub-blocks of a shape, or that many of one to three bytes; 99 is
/// one of any length, 98 two, 97 one after up to three
pub fn subs(shape: usize) -> Vec<Vec<u8>> {
    if shape == 99 {
        return vec![bytes(1 + choose(255))];
    }
    if shape == 98 {
        return vec![bytes(1 + choose(30)), bytes(1 + choose(30))];
    }
    if shape == 97 {
        let mut v: Vec<_> = (0..choose(4)).map(|_| bytes(1)).collect();
        v.push(bytes(1 + choose(255)));
        return v;
    }
    if shape >= 100 || any_length() {
        let part = |i| {
            item(i, shape);
            bytes(1 + i % 3)
        };
        let v = (0..shape).map(part).collect();
        item(0, 0);
        return v;
    }
    SHAPES[shape].iter().map(|n| bytes(*n)).collect()
}

fn ext(v: &mut Vec<u8>, label: u8, s: &[Vec<u8>]) {
    let r: Vec<&[u8]> = s.iter().map(|b| &b[..]).collect();
    extension(v, label, &r);
}

/// A block with arbitrary contents, and its bytes.  `shape` gives the
/// sub-blocks, the size bits of colour tables or the pixels of an image.
pub fn any_block(kind: usize, shape: usize) -> (Block, Vec<u8>) {
    let mut v = Vec::new();
    let b = match kind {
        HEADER => {
            let x = bytes(3);
            v.extend_from_slice(b"GIF");
            v.extend_from_slice(&x);
            Header::with_version([x[0], x[1], x[2]]).into()
        }
        SCREEN => {
            let (w, h, bg, aspect) = (word(), word(), byte(), byte());
            // 8: no colour table; 9: any flags
            let flags = match shape {
                8 => byte() & 0x7F,
                9 => byte(),
                n => byte() & 0x78 | 0x80 | n as u8,
            };
            screen(&mut v, w, h, flags, bg, aspect);
            LogicalScreenDesc::default()
                .with_screen_width(w)
                .with_screen_height(h)
                .with_flags(flags)
                .with_background_color_idx(bg)
                .with_pixel_aspect_ratio(aspect)
                .into()
        }
        GLOBAL => {
            v = bytes(6 << shape);
            GlobalColorTable::with_colors(&v).into()
        }
        PLAIN => {
            let s = subs(shape);
            ext(&mut v, 0x01, &s);
            let mut b = PlainText::default();
            for x in &s {
                b.add_sub_block(x);
            }
            b.into()
        }
        CONTROL => {
            let (flags, delay, trans) = (byte(), word(), byte());
            control(&mut v, flags, delay, trans);
            let mut b = GraphicControl::default();
            b.set_flags(flags);
            b.set_delay_time_cs(delay);
            b.set_transparent_color_idx(trans);
            b.into()
        }
        COMMENT => {
            let s = subs(shape);
            ext(&mut v, 0xFE, &s);
            let mut b = Comment::default();
            for x in &s {
                b.add_comment(x);
            }
            b.into()
        }
        APP => {
            let s = subs(shape);
            ext(&mut v, 0xFF, &s);
            let mut b = Application::default();
            for x in &s {
                b.add_app_data(x);
            }
            b.into()
        }
        UNKNOWN => {
            let id = byte_except([0x01, 0xF9, 0xFE, 0xFF]);
            let s = subs(shape);
            ext(&mut v, id, &s);
            let mut b = Unknown::default();
            b.add_sub_block(&[id]);
            for x in &s {
                b.add_sub_block(x);
            }
            b.into()
        }
        IMAGE => {
            // 0..8: colour table of that size; 8: none; 9: anything; other: none and small
            let (l, t) = (word(), word());
            let (w, h) = if shape == 9 { (word(), word()) } else { (2, 1) };
            let flags = match shape {
                8 => byte() & 0x7F,
                9 => byte(),
                n => byte() & 0x78 | 0x80 | n as u8,
            };
            image(&mut v, l, t, w, h, flags);
            ImageDesc::default()
                .with_left(l)
                .with_top(t)
                .with_width(w)
                .with_height(h)
                .with_flags(flags)
                .into()
        }
        LOCAL => {
            v = bytes(6 << shape);
            LocalColorTable::with_colors(&v).into()
        }
        DATA => {
            let mut d = ImageData::new(2);
            let m = ((1u32 << shape) - 1) as u8;
            d.data_mut().push(byte() & m);
            d.data_mut().push(byte() & m);
            d.into()
        }
        LOOP => {
            let n = word();
            looping(&mut v, n);
            Application::with_loop_count(n).into()
        }
        _ => {
            trailer(&mut v);
            Trailer::default().into()
        }
    };
    (b, v)
}

/// Compare bytes without branching on their values
pub fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0;
    for (x, y) in a.iter().zip(b) {
        d |= x ^ y;
    }
    d == 0
}

pub fn same_subs(a: &[Vec<u8>], b: &[Vec<u8>]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for (x, y) in a.iter().zip(b) {
        ok &= same_bytes(x, y);
    }
    ok
}

pub fn same_control(a: GraphicControl, b: GraphicControl) -> bool {
    (a.flags() == b.flags())
        & (a.delay_time_cs() == b.delay_time_cs())
        & (a.transparent_color_idx() == b.transparent_color_idx())
}

pub fn same_desc(a: &ImageDesc, b: &ImageDesc) -> bool {
    (a.left() == b.left())
        & (a.top() == b.top())
        & (a.width() == b.width())
        & (a.height() == b.height())
        & (a.flags() == b.flags())
}

pub fn same_screen(a: LogicalScreenDesc, b: LogicalScreenDesc) -> bool {
    (a.screen_width() == b.screen_width())
        & (a.screen_height() == b.screen_height())
        & (a.flags() == b.flags())
        & (a.background_color_idx() == b.background_color_idx())
        & (a.pixel_aspect_ratio() == b.pixel_aspect_ratio())
}

/// Compare two blocks through their getters
pub fn same_block(a: &Block, b: &Block) -> bool {
    match (a, b) {
        (Block::Header(a), Block::Header(b)) => same_bytes(&a.version(), &b.version()),
        (Block::LogicalScreenDesc(a), Block::LogicalScreenDesc(b)) => same_screen(*a, *b),
        (Block::GlobalColorTable(a), Block::GlobalColorTable(b)) => same_bytes(a.colors(), b.colors()),
        (Block::PlainText(a), Block::PlainText(b)) => same_subs(a.sub_blocks(), b.sub_blocks()),
        (Block::GraphicControl(a), Block::GraphicControl(b)) => same_control(*a, *b),
        (Block::Comment(a), Block::Comment(b)) => same_subs(a.comments(), b.comments()),
        (Block::Application(a), Block::Application(b)) => same_subs(a.app_data(), b.app_data()),
        (Block::Unknown(a), Block::Unknown(b)) => {
            same_bytes(a.ext_id(), b.ext_id()) & same_subs(a.sub_blocks(), b.sub_blocks())
        }
        (Block::ImageDesc(a), Block::ImageDesc(b)) => same_desc(a, b),
        (Block::LocalColorTable(a), Block::LocalColorTable(b)) => same_bytes(a.colors(), b.colors()),
        (Block::ImageData(a), Block::ImageData(b)) => same_bytes(a.data(), b.data()),
        (Block::Trailer(_), Block::Trailer(_)) => true,
        _ => false,
    }
}
