//! The preamble reports what precedes the first frame
use crate::blocks::*;
use crate::gifw::*;
use crate::sym::*;
use crate::{bad, ck, entries};
use gift::Decoder;
use gift::block::*;

/// Compare the frames read with and without reading the preamble first
fn same_frames(a: &Frame, b: &Frame) -> bool {
    let control = match (a.graphic_control_ext, b.graphic_control_ext) {
        (Some(a), Some(b)) => same_control(a, b),
        (None, None) => true,
        _ => false,
    };
    let local = match (&a.local_color_table, &b.local_color_table) {
        (Some(a), Some(b)) => same_bytes(a.colors(), b.colors()),
        (None, None) => true,
        _ => false,
    };
    control & local & same_desc(&a.image_desc, &b.image_desc) & same_bytes(a.image_data.data(), b.image_data.data())
}

/// Loop extension with either name
fn any_loop(v: &mut Vec<u8>) -> Vec<Vec<u8>> {
    let name = if flip() { b"NETSCAPE2.0" } else { b"ANIMEXTS1.0" };
    let c = [1, byte(), byte()];
    extension(v, 0xFF, &[name, &c]);
    vec![name.to_vec(), c.to_vec()]
}

fn any_image(v: &mut Vec<u8>, local: bool) {
    let mut flags = byte() & 0x78;
    if local {
        flags |= 0x80;
    }
    image(v, word(), word(), 2, 1, flags);
    if local {
        v.extend(bytes(6));
    }
    pixels(v, 2, &[byte() & 3, byte() & 3]);
}

entries! {
    // blocks before the frames, size bits of the global table (8: none),
    // what follows them, other blocks before, shape of comments (0: any)
    c09_preamble {
        let mut v = Vec::new();
        let version = if flip() { *b"87a" } else { *b"89a" };
        v.extend_from_slice(b"GIF");
        v.extend_from_slice(&version);
        let (screen, x) = any_block(SCREEN, param(1));
        v.extend(x);
        let table = if param(1) < 8 { Some(bytes(6 << param(1))) } else { None };
        if let Some(t) = &table {
            v.extend_from_slice(t);
        }
        let mut comments = Vec::new();
        let mut count: Option<Vec<Vec<u8>>> = None;
        for i in 0..param(3) + param(0) {
            item(i, param(3) + param(0));
            let fixed = i < param(3);
            match if fixed { [0, 1, 3, 0, 4, 5, 0, 2][i % 8] } else { choose(6) } {
                0 => {
                    let (b, x) = any_block(COMMENT, if fixed { i % 4 } else if param(4) > 0 { param(4) } else { choose(4) });
                    v.extend(x);
                    if let Block::Comment(c) = b {
                        comments.push(c.comments().clone());
                    }
                }
                1 => count = Some(any_loop(&mut v)),
                2 => v.extend(any_block(PLAIN, 3).1),
                3 => v.extend(any_block(UNKNOWN, 1).1),
                4 => {
                    // not a loop count: the name differs
                    let mut name = *b"NETSCAPE2.0";
                    name[10] = byte() | 1;
                    extension(&mut v, 0xFF, &[&name, &bytes(3)]);
                }
                _ => {
                    // not a loop count: another sub-block
                    let mut c = bytes(3);
                    c[0] = byte() & 0xFE;
                    extension(&mut v, 0xFF, &[b"NETSCAPE2.0", &c]);
                }
            }
        }
        let frames = match param(2) {
            0 => {
                any_image(&mut v, false);
                1
            }
            1 => {
                v.extend(any_block(CONTROL, 0).1);
                any_image(&mut v, true);
                // these are not before the first frame
                v.extend(any_block(COMMENT, 1).1);
                any_loop(&mut v);
                any_image(&mut v, false);
                2
            }
            2 => {
                // these follow the first frame's control
                v.extend(any_block(CONTROL, 0).1);
                v.extend(any_block(COMMENT, 1).1);
                any_loop(&mut v);
                any_image(&mut v, false);
                1
            }
            _ => 0,
        };
        if param(2) != 4 {
            trailer(&mut v);
        }
        let mut dec = Decoder::new(&v[..]).into_frames();
        let got = dec.preamble();
        if frames == 0 {
            ck!(got.is_err());
            cover(3);
            return;
        }
        let Ok(Some(p)) = got else {
            bad!();
            return;
        };
        ck!(p.header.version() == version);
        let Block::LogicalScreenDesc(screen) = screen else {
            bad!();
            return;
        };
        ck!(same_screen(p.logical_screen_desc, screen));
        ck!((p.screen_width() == screen.screen_width()) & (p.screen_height() == screen.screen_height()));
        match (&p.global_color_table, &table) {
            (Some(a), Some(b)) => ck!(same_bytes(a.colors(), b)),
            (None, None) => (),
            _ => bad!(),
        }
        match (&p.loop_count_ext, &count) {
            (Some(a), Some(b)) => {
                cover(1);
                ck!(same_subs(a.app_data(), b));
                ck!(a.loop_count() == Some(b[1][1] as u16 | (b[1][2] as u16) << 8));
            }
            (None, None) => cover(2),
            _ => bad!(),
        }
        ck!(p.comments.len() == comments.len());
        for (a, b) in p.comments.iter().zip(&comments) {
            ck!(same_subs(a.comments(), b));
        }
        let mut other = Decoder::new(&v[..]).into_frames();
        for _ in 0..frames {
            let (Some(Ok(a)), Some(Ok(b))) = (dec.next(), other.next()) else {
                bad!();
                return;
            };
            ck!(same_frames(&a, &b));
        }
        ck!(dec.next().is_none());
        out(comments.len() as u64);
    }
}
