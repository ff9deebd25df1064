//! Preambles and frames read back equal those that were written
use crate::blocks::*;
use crate::items::*;
use crate::sym::*;
use crate::{bad, ck, entries};
use gift::block::*;
use gift::{Decoder, Encoder};

/// A screen with a table of given size bits (8: none)
fn preamble(bits: usize, comments: usize, shape: usize) -> Preamble {
    let mut p = Preamble::default();
    if flip() {
        p.header = Header::with_version(*b"87a");
    }
    if let (Block::LogicalScreenDesc(b), _) = any_block(SCREEN, bits) {
        p.logical_screen_desc = b;
    }
    if bits < 8 {
        p.global_color_table = Some(GlobalColorTable::with_colors(&bytes(6 << bits)));
    }
    if flip() {
        p.loop_count_ext = Some(Application::with_loop_count(word()));
    }
    for i in 0..comments {
        if let (Block::Comment(c), _) = any_block(COMMENT, if i > 2 { i % 12 } else { shape }) {
            p.comments.push(c);
        }
    }
    p
}

/// A frame with or without control and table (size bits; 8: none)
fn frame(controlled: bool, bits: usize, w: usize, h: usize, px: Vec<u8>) -> Frame {
    let control = controlled.then(|| {
        let mut c = GraphicControl::default();
        c.set_flags(byte());
        c.set_delay_time_cs(word());
        c.set_transparent_color_idx(byte());
        c
    });
    let flags = if bits < 8 { byte() & 0x78 | 0x80 | bits as u8 } else { byte() & 0x7F };
    let desc = ImageDesc::default()
        .with_left(word())
        .with_top(word())
        .with_width(w as u16)
        .with_height(h as u16)
        .with_flags(flags);
    let table = (bits < 8).then(|| LocalColorTable::with_colors(&bytes(6 << bits)));
    let mut data = ImageData::new(px.len());
    data.data_mut().extend_from_slice(&px);
    Frame::new(control, desc, table, data)
}

fn round_trip(p: &Preamble, frames: &[Frame]) {
    let mut v = Vec::new();
    let mut enc = Encoder::new(&mut v).into_frame_enc();
    ck!(enc.encode_preamble(p).is_ok());
    for f in frames {
        ck!(enc.encode_frame(f).is_ok());
    }
    ck!(enc.encode_trailer().is_ok());
    drop(enc);
    let mut dec = Decoder::new(&v[..]).max_image_sz(None).into_frames();
    if flip() {
        let Ok(Some(got)) = dec.preamble() else {
            bad!();
            return;
        };
        ck!(same_preamble(p, &got));
        ck!(*p == got);
        cover(1);
    }
    for f in frames {
        let Some(Ok(got)) = dec.next() else {
            bad!();
            return;
        };
        ck!(same_frames(f, &got));
    }
    ck!(dec.next().is_none());
    cover(2);
    out(v.len() as u64);
}

/// Fixed pixels
fn fixed(n: usize, seed: u32) -> Vec<u8> {
    let mut x = seed;
    (0..n)
        .map(|_| {
            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
            (x >> 24) as u8
        })
        .collect()
}

entries! {
    // any preamble: size bits of the table, comments, their shape
    c27_preamble {
        let p = preamble(param(0), param(1), param(2));
        let f = frame(flip(), 8, 2, 1, vec![byte() & 3, 1]);
        round_trip(&p, &[f]);
    }
    // any frame: size bits of the table, pixels, their bits
    c27_frame {
        let p = preamble(8, 0, 0);
        let px = bytes(param(1)).iter().map(|b| b & ((1u32 << param(2)) - 1) as u8).collect();
        let f = frame(flip(), param(0), param(1), 1, px);
        round_trip(&p, &[f]);
    }
    // sequences of frames of all kinds: number, others before, width, height
    c27_seq {
        item(0, if param(1) > 1000 { param(1) } else { 0 });
        let p = preamble(0, 1, 1);
        let mut frames = Vec::new();
        let (w, h) = (param(2), param(3));
        for i in 0..param(1) {
            item(i, param(1));
            frames.push(frame(i % 3 == 0, if i == 4 { 3 } else { [8, 0][i / 3 % 2] }, w, h, fixed(w * h, i as u32)));
        }
        item(0, 0);
        for i in 0..param(0) {
            frames.push(frame(flip(), if flip() { 0 } else { 8 }, w, h, fixed(w * h, i as u32)));
        }
        round_trip(&p, &frames);
    }
}
