//! Frames carry exactly the blocks that belong to them
use crate::blocks::*;
use crate::gifw::*;
use crate::refr::*;
use crate::sym::*;
use crate::{bad, ck, entries};
use gift::Decoder;
use gift::block::*;

/// What a frame must consist of
pub struct Want {
    pub control: Option<GraphicControl>,
    pub desc: ImageDesc,
    pub local: Option<Vec<u8>>,
    pub data: Vec<u8>,
}

pub fn same_frame(f: &Frame, w: &Want) -> bool {
    let control = match (f.graphic_control_ext, w.control) {
        (Some(a), Some(b)) => same_control(a, b),
        (None, None) => true,
        _ => false,
    };
    let local = match (&f.local_color_table, &w.local) {
        (Some(a), Some(b)) => same_bytes(a.colors(), b),
        (None, None) => true,
        _ => false,
    };
    control & local & same_desc(&f.image_desc, &w.desc) & same_bytes(f.image_data.data(), &w.data)
}

/// Getters of the frame itself
fn getters(f: &Frame, w: &Want) -> bool {
    let d = &w.desc;
    let c = w.control.unwrap_or_default();
    (f.left() == d.left())
        & (f.top() == d.top())
        & (f.width() == d.width())
        & (f.height() == d.height())
        & (u8::from(f.disposal_method()) == (c.flags() >> 2 & 7))
        & (f.transparent_color().map_or(256, u16::from)
            == if c.flags() & 1 != 0 { c.transparent_color_idx() as u16 } else { 256 })
}

/// Image with arbitrary place, flags, table and pixels
fn any_image(v: &mut Vec<u8>, bits: Option<u8>, w: u16, h: u16) -> Want {
    let (l, t) = (word(), word());
    let mut flags = byte() & 0x78;
    if let Some(b) = bits {
        flags |= table_flags(b);
    }
    image(v, l, t, w, h, flags);
    let desc = ImageDesc::default().with_left(l).with_top(t).with_width(w).with_height(h).with_flags(flags);
    let local = bits.map(|b| bytes(6 << b));
    if let Some(t) = &local {
        v.extend_from_slice(t);
    }
    let n = w as usize * h as usize;
    // only the last pixels of a large image are arbitrary
    let data: Vec<u8> = (0..n).map(|i| if i + 2 < n { (i / 3) as u8 & 3 } else { byte() & 3 }).collect();
    pixels(v, 2, &data);
    Want { control: None, desc, local, data }
}

/// Kinds of blocks before the chosen ones
const FIXED: [usize; 13] = [0, 5, 1, 2, 0, 6, 3, 4, 7, 0, 1, 5, 4];

entries! {
    // an image of any size with and without control and table, and another
    // after it: largest width and height
    c08_size {
        let mut v = Vec::new();
        header(&mut v);
        v.extend(any_block(SCREEN, 8).1);
        let mut wants = Vec::new();
        let (w, h) = (1 + choose(param(0)), 1 + choose(param(1)));
        let kind = choose(8);
        for i in 0..2 {
            let mut c = None;
            if kind & 1 << i == 0 {
                let (b, x) = any_block(CONTROL, 0);
                v.extend(x);
                if let Block::GraphicControl(b) = b {
                    c = Some(b);
                }
            }
            let table = if (kind & 4 == 0) == (i == 0) { Some(0) } else { None };
            let mut want = if i == 0 { any_image(&mut v, table, w as u16, h as u16) } else { any_image(&mut v, table, 1, 1) };
            want.control = c;
            wants.push(want);
        }
        trailer(&mut v);
        let mut frames = Decoder::new(&v[..]).into_frames();
        for w in &wants {
            let Some(Ok(f)) = frames.next() else {
                bad!();
                return;
            };
            ck!(same_frame(&f, w));
            ck!(getters(&f, w));
        }
        ck!(frames.next().is_none());
        cover(1);
        out(v.len() as u64);
    }
    // number of blocks, size bits of the global table (8: none), other blocks
    // before, more columns and rows of some images
    c08_seq {
        let mut v = Vec::new();
        header(&mut v);
        v.extend(any_block(SCREEN, param(1)).1);
        if param(1) < 8 {
            v.extend(bytes(6 << param(1)));
        }
        let mut pending: Option<GraphicControl> = None;
        let mut wants = Vec::new();
        let mut invalid = false;
        for i in 0..param(2) + param(0) {
            item(i, param(2) + param(0));
            let fixed = i < param(2);
            let k = if fixed { FIXED[i % FIXED.len()] } else { choose(8) };
            match k {
                0 => {
                    let (b, x) = any_block(CONTROL, 0);
                    v.extend(x);
                    if pending.is_some() {
                        invalid = true;
                        break;
                    }
                    if let Block::GraphicControl(b) = b {
                        pending = Some(b);
                    }
                }
                1 => v.extend(any_block(COMMENT, 1).1),
                2 => v.extend(any_block(PLAIN, 3).1),
                3 => v.extend(any_block(UNKNOWN, 0).1),
                4 => v.extend(any_block([APP, LOOP][if fixed { i % 2 } else { choose(2) }], 1).1),
                5 => {
                    let mut w = any_image(&mut v, None, 2, param(4) as u16 + 1);
                    w.control = pending.take();
                    wants.push(w);
                }
                6 => {
                    let mut w = any_image(&mut v, Some(0), param(3) as u16 + 1, 1);
                    w.control = pending.take();
                    wants.push(w);
                }
                _ => {
                    let mut w = any_image(&mut v, Some(1), 1, 2);
                    w.control = pending.take();
                    wants.push(w);
                }
            }
        }
        if !invalid {
            trailer(&mut v);
        }
        let mut frames = Decoder::new(&v[..]).into_frames();
        for (i, w) in wants.iter().enumerate() {
            let Some(Ok(f)) = frames.next() else {
                bad!();
                return;
            };
            ck!(same_frame(&f, w));
            // which may split paths
            if i + 4 >= wants.len() {
                ck!(getters(&f, w));
            }
            if w.control.is_some() && w.local.is_some() {
                cover(1);
            }
            if w.control.is_none() && w.local.is_none() {
                cover(2);
            }
        }
        let end = frames.next();
        if invalid {
            cover(3);
            let Some(Err(e)) = end else {
                bad!();
                return;
            };
            ck!(kind_of(&e) == E_SEQUENCE);
        } else {
            ck!(end.is_none());
            cover(4);
        }
        out(wants.len() as u64);
    }
}
