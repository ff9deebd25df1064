//! Colour table sizes
use crate::gifw::*;
use crate::sym::*;
use crate::{bad, ck, entries};
use gift::block::*;
use gift::Decoder;

/// Smallest power of two from 2 to 256 which holds the entries
fn size(n: u16) -> usize {
    let mut size = 2;
    for bits in 1..8 {
        size += (((n as usize) > 1 << bits) as usize) << bits;
    }
    size
}

fn check(c: ColorTableConfig, e: bool, o: bool, size: usize) {
    ck!((c.existence() == ColorTableExistence::Present) == e);
    ck!((c.ordering() == ColorTableOrdering::Sorted) == o);
    let len = if e { size } else { 0 };
    ck!(c.len() == len);
    ck!(c.is_empty() == (len == 0));
    ck!(c.size_bytes() == 3 * len);
}

entries! {
    // any length, stored in descriptors with any earlier flags
    c24_len {
        let (e, o) = (flip(), flip());
        let n = word();
        let existence = if e { ColorTableExistence::Present } else { ColorTableExistence::Absent };
        let ordering = if o { ColorTableOrdering::Sorted } else { ColorTableOrdering::NotSorted };
        let c = ColorTableConfig::new(existence, ordering, n);
        let len = size(n);
        check(c, e, o, len);
        let f = byte();
        let s = LogicalScreenDesc::default().with_flags(f).with_color_table_config(c);
        ck!(s.color_table_config() == c);
        check(s.color_table_config(), e, o, len);
        let i = ImageDesc::default().with_flags(f).with_color_table_config(c);
        ck!(i.color_table_config() == c);
        check(i.color_table_config(), e, o, len);
        // and from one to the other
        let t = LogicalScreenDesc::default().with_color_table_config(i.color_table_config());
        ck!(t.color_table_config() == c);
        let j = ImageDesc::default().with_color_table_config(s.color_table_config());
        ck!(j.color_table_config() == c);
        cover(1);
    }
    // default: absent
    c24_default {
        let c = ColorTableConfig::default();
        check(c, false, false, 2);
        check(LogicalScreenDesc::default().color_table_config(), false, false, 2);
        check(ImageDesc::default().color_table_config(), false, false, 2);
        cover(1);
    }
    // any flags byte
    c24_flags {
        let f = byte();
        let size = 2usize << (f & 7);
        let s = LogicalScreenDesc::default().with_flags(f);
        check(s.color_table_config(), f & 0x80 != 0, f & 8 != 0, size);
        let i = ImageDesc::default().with_flags(f);
        check(i.color_table_config(), f & 0x80 != 0, f & 0x20 != 0, size);
        cover(1);
    }
    // screen and image descriptors with any flags in a file
    c24_read {
        let (f, g) = (byte(), byte());
        let (gs, ls) = (conc((f & 0x87) as usize), conc((g & 0x87) as usize));
        let mut v = Vec::new();
        header(&mut v);
        screen(&mut v, 1, 1, f, byte(), byte());
        let table = |n: usize| if n >= 0x80 { 6 << (n & 7) } else { 0 };
        let global = bytes(table(gs));
        v.extend_from_slice(&global);
        image(&mut v, 0, 0, 1, 1, g);
        let local = bytes(table(ls));
        v.extend_from_slice(&local);
        pixels(&mut v, 2, &[byte() & 3]);
        trailer(&mut v);
        let mut n = 0;
        for b in Decoder::new(&v[..]).into_blocks() {
            match b {
                Ok(Block::GlobalColorTable(t)) => {
                    ck!(crate::blocks::same_bytes(t.colors(), &global));
                    ck!(t.len() == global.len() / 3);
                    ck!(!t.is_empty());
                    n += 1;
                }
                Ok(Block::LocalColorTable(t)) => {
                    ck!(crate::blocks::same_bytes(t.colors(), &local));
                    ck!(t.len() == local.len() / 3);
                    ck!(!t.is_empty());
                    n += 1;
                }
                Ok(Block::LogicalScreenDesc(d)) => {
                    check(d.color_table_config(), f & 0x80 != 0, f & 8 != 0, 2 << (f & 7));
                    ck!(d.color_table_config().size_bytes() == global.len());
                }
                Ok(Block::ImageDesc(d)) => {
                    check(d.color_table_config(), g & 0x80 != 0, g & 0x20 != 0, 2 << (g & 7));
                    ck!(d.color_table_config().size_bytes() == local.len());
                }
                Ok(Block::Trailer(_)) => cover(1),
                Ok(_) => (),
                Err(_) => bad!(),
            }
        }
        ck!(n == !global.is_empty() as usize + !local.is_empty() as usize);
        ck!(GlobalColorTable::with_colors(&[]).is_empty());
        ck!(LocalColorTable::with_colors(&[]).is_empty());
        out(v.len() as u64);
    }
}
