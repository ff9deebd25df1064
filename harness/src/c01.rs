//! Decoding any bytes terminates without panicking
use crate::gifw::*;
use crate::sym::*;
use crate::{bad, ck, entries};
use gift::Decoder;
use gift::block::Block;

/// Well-formed prefix before the arbitrary bytes
fn prefix(kind: usize) -> Vec<u8> {
    let mut v = Vec::new();
    match kind {
        0 => (),
        1 => {
            header(&mut v);
        }
        2 => {
            header(&mut v);
            screen(&mut v, 2, 2, 0, 0, 0);
        }
        3 => {
            header(&mut v);
            screen(&mut v, 2, 2, 0x80, 0, 0);
            v.extend_from_slice(&[1, 2, 3, 4, 5, 6]);
            image(&mut v, 0, 0, 2, 2, 0);
        }
        4 => {
            header(&mut v);
            screen(&mut v, 2, 2, 0x80, 0, 0);
            v.extend_from_slice(&[1, 2, 3, 4, 5, 6]);
            image(&mut v, 0, 0, 2, 2, 0);
            v.push(2);
        }
        5 => {
            header(&mut v);
            screen(&mut v, 2, 2, 0x80, 0, 0);
            v.extend_from_slice(&[1, 2, 3, 4, 5, 6]);
            image(&mut v, 0, 0, 2, 2, 0);
            pixels(&mut v, 2, &[0, 1, 1, 0]);
        }
        // looping application block without its second part
        6 | 7 => {
            header(&mut v);
            screen(&mut v, 2, 2, 0x80, 0, 0);
            v.extend_from_slice(&[1, 2, 3, 4, 5, 6, 0x21, 0xFF, 11]);
            v.extend_from_slice(if kind == 6 { b"NETSCAPE2.0" } else { b"ANIMEXTS1.0" });
        }
        // graphic control block without its contents
        8 => {
            header(&mut v);
            screen(&mut v, 2, 2, 0x80, 0, 0);
            v.extend_from_slice(&[1, 2, 3, 4, 5, 6, 0x21, 0xF9]);
        }
        // many blocks and frames
        9..15 => {
            let n = if kind < 12 { 300 } else { 70000 };
            let kind = 9 + kind % 3;
            header(&mut v);
            screen(&mut v, 2, 2, 0x80, 0, 0);
            v.extend_from_slice(&[1, 2, 3, 4, 5, 6]);
            for i in 0..n {
                extension(&mut v, [0xFE, 0x01, 0x55][i % 3], &[b"a", b"bc"]);
            }
            looping(&mut v, 3);
            for i in 0..n {
                let i = i as u16;
                control(&mut v, (i % 4 << 2) as u8 | 1, i, (i % 2) as u8);
                image(&mut v, i % 2, 0, 1, 1, 0);
                pixels(&mut v, 2, &[1]);
            }
            // comment of many parts without its end
            if kind == 10 {
                v.extend_from_slice(&[0x21, 0xFE]);
                for _ in 0..n {
                    v.extend_from_slice(&[1, 65]);
                }
            }
            // image with many codes without their end
            if kind == 11 {
                control(&mut v, 8, 0, 0);
                image(&mut v, 0, 0, 2, 2, 0x40);
                v.push(2);
                for _ in 0..n {
                    v.extend_from_slice(&[1, 0x24]);
                }
            }
        }
        _ => bad!(),
    }
    v
}

/// Use everything a block tells about itself
fn look(b: &Block) {
    match b {
        Block::Header(b) => out_bytes(&b.version()),
        Block::LogicalScreenDesc(b) => {
            out(b.color_table_config().size_bytes() as u64);
            out(b.color_resolution() as u64);
        }
        Block::GlobalColorTable(b) => out(b.len() as u64),
        Block::PlainText(b) => out(b.sub_blocks().len() as u64),
        Block::GraphicControl(b) => {
            let d: u8 = b.disposal_method().into();
            out(d as u64);
            out(b.transparent_color().map_or(300, u64::from));
        }
        Block::Comment(b) => out(b.comments().len() as u64),
        Block::Application(b) => out(b.loop_count().map_or(70000, u64::from)),
        Block::Unknown(b) => {
            out_bytes(b.ext_id());
            out(b.sub_blocks().len() as u64);
        }
        Block::ImageDesc(b) => {
            out(b.color_table_config().size_bytes() as u64);
            out(b.image_sz() as u64);
        }
        Block::LocalColorTable(b) => out(b.len() as u64),
        Block::ImageData(b) => out(b.data().len() as u64),
        Block::Trailer(_) => (),
    }
}

fn run(data: &[u8], iter: usize, limit: Option<usize>) {
    let max = data.len() + 3;
    let d = Decoder::new(data).max_image_sz(limit);
    match iter {
        0 => {
            let mut n = 0;
            for r in d.into_blocks() {
                match r {
                    Ok(b) => look(&b),
                    Err(_) => out(99999),
                }
                n += 1;
                ck!(n <= max);
            }
            cover(1);
        }
        1 => {
            let mut n = 0;
            for r in d.into_frames() {
                out(r.is_ok() as u64);
                n += 1;
                ck!(n <= max);
            }
            cover(2);
        }
        2 => {
            let mut n = 0;
            for r in d.into_steps() {
                out(r.is_ok() as u64);
                n += 1;
                ck!(n <= max);
            }
            cover(3);
        }
        4 => {
            let mut n = 0;
            let mut frames = d.into_frames();
            match frames.preamble() {
                Ok(Some(p)) => {
                    out(p.comments.len() as u64);
                    out(p.loop_count_ext.map_or(0, |b| b.app_data().len() as u64));
                }
                Ok(None) => out(88),
                Err(_) => out(99),
            }
            for r in frames {
                match r {
                    Ok(f) => {
                        let d: u8 = f.disposal_method().into();
                        out(d as u64);
                        out(f.transparent_color().map_or(300, u64::from));
                        out(f.left() as u64 + f.height() as u64);
                    }
                    Err(_) => out(99999),
                }
                n += 1;
                ck!(n <= max);
            }
            cover(5);
        }
        _ => {
            for (n, r) in d.into_iter().enumerate() {
                out(r.is_ok() as u64);
                if n > 6 {
                    break;
                }
            }
            cover(4);
        }
    }
}

/// Two frames with arbitrary descriptors
fn descriptors(kind: usize) -> Vec<u8> {
    let mut v = Vec::new();
    header(&mut v);
    match kind {
        // any screen size, valid frame
        0 | 4 => {
            let (mut w, mut h) = (word(), word());
            if kind == 0 {
                // one of them takes chosen values only
                let c = [0, 1, 2, 3, 7, 256, 65535][choose(7)];
                if flip() {
                    w = c;
                } else {
                    h = c;
                }
            }
            screen(&mut v, w, h, 0x80, byte(), byte());
            v.extend_from_slice(&[1, 2, 3, 4, 5, 6]);
            image(&mut v, 0, 0, 1, 2, 0);
            pixels(&mut v, 2, &[0, 1]);
        }
        // any frame rectangle on a small screen
        1 => {
            screen(&mut v, 3, 2, 0x80, 0, 0);
            v.extend_from_slice(&[1, 2, 3, 4, 5, 6]);
            let (l, t) = (word(), word());
            let (w, h) = (word(), word());
            image(&mut v, l, t, w, h, 0);
            pixels(&mut v, 2, &[0, 1, 1, 0, 1, 1]);
        }
        // any graphic control and any flags in the descriptors
        2 => {
            screen(&mut v, 2, 1, byte() & 0xF8, 0, 0);
            v.extend_from_slice(&[1, 2, 3, 4, 5, 6]);
            control(&mut v, byte(), word(), byte());
            image(&mut v, 0, 0, 2, 1, byte() & 0xF8);
            v.extend_from_slice(&[1, 2, 3, 4, 5, 6]);
            pixels(&mut v, 2, &[small(4), small(4)]);
            control(&mut v, byte(), 0, byte());
            image(&mut v, 1, 0, 1, 1, 0);
            pixels(&mut v, 2, &[small(4)]);
        }
        // any minimum code size and first data bytes
        _ => {
            screen(&mut v, 2, 2, 0x80, 0, 0);
            v.extend_from_slice(&[1, 2, 3, 4, 5, 6]);
            image(&mut v, 0, 0, 2, 2, 0);
            v.push(conc(byte() as usize) as u8);
            v.push(3);
            v.extend(bytes(3));
            v.push(0);
        }
    }
    trailer(&mut v);
    v
}

entries! {
    c01_bytes {
        let mut v = prefix(param(0));
        let iter = param(2);
        v.extend(bytes(param(1)));
        run(&v, iter, Some(12));
    }
    c01_desc {
        let v = descriptors(param(0));
        run(&v, param(1), Some(param(2)));
    }
}
