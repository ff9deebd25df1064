//! Step pixels come from the right frame, place and colour table
use crate::compose::*;
use crate::sym::*;
use crate::entries;

fn any_pixels(r: Rect, mask: u8) -> Vec<u8> {
    (0..r.w as usize * r.h as usize).map(|_| byte() & mask).collect()
}

entries! {
    // any rectangles: screen width and height, frames, tables in all frames?
    c10_place {
        let (w, h) = (param(0) as u16, param(1) as u16);
        let global = Some(bytes(6));
        let mut frames = Vec::new();
        for _ in 0..param(2) {
            let r = any_rect(w, h);
            let local = if flip() { Some(bytes(12)) } else { None };
            let px = any_pixels(r, if local.is_some() { 3 } else { 1 });
            let mut f = frame(r, local, px, 2);
            f.flags = byte() & 0x38 | (choose(2) as u8) << 6;
            frames.push(f);
        }
        compare(w, h, &global, &frames);
    }
    // any index in a table of any size: bits of the local table (8: none) and
    // of the global one
    c10_index {
        let (l, g) = (param(0), param(1));
        let local = if l < 8 { Some(bytes(6 << l)) } else { None };
        let global = if g < 8 { Some(bytes(6 << g)) } else { None };
        let mask = ((2u32 << if l < 8 { l } else { g }) - 1) as u8;
        let r = Rect { l: 1, t: 0, w: 2, h: 1 };
        let px = any_pixels(r, mask);
        compare(3, 1, &global, &[frame(r, local, px, 8)]);
    }
    // interlaced frames: width, height, offset
    c10_inter {
        let (w, h, t) = (param(0) as u16, param(1) as u16, param(2) as u16);
        let global = Some(bytes(24));
        let r = Rect { l: 0, t, w, h };
        let mut f = frame(r, None, any_pixels(r, 7), 3);
        f.flags = byte() & 0x38 | 0x40;
        let mut g = frame(r, Some(bytes(24)), any_pixels(r, 7), 3);
        g.flags = byte() & 0x38;
        compare(w, h + t, &global, &[f, g]);
    }
    // frames far from the origin: screen width and height
    c10_far {
        let (w, h) = (param(0) as u16, param(1) as u16);
        let global = Some(bytes(6));
        let at: &[u16] = if w.max(h) > 300 { &[0, 298, 1023, 4095, 32766, 32767, 32768, 65533] } else { &[0, 1, 127, 128, 254, 255, 256, 257, 298] };
        let l = if w > 1 { at[choose(at.len())] } else { 0 };
        let t = if h > 1 { at[choose(at.len())] } else { 0 };
        let r = Rect { l, t, w: 1 + (w > 1) as u16, h: 1 + (h > 1) as u16 };
        compare(w, h, &global, &[frame(r, None, any_pixels(r, 1), 2)]);
    }
    // frames of a large part of a screen: its width and height
    c10_big {
        let (w, h) = (param(0) as u16, param(1) as u16);
        let mut frames = movie(1, w, h, false, true);
        for i in 0..2u16 {
            let (l, t) = (i.min(w - 1), i.min(h - 1));
            let r = Rect { l, t, w: w - l, h: h - t };
            let n = r.w as usize * r.h as usize;
            let mut px: Vec<u8> = (0..n).map(|i| (i * i / 3) as u8 & 3).collect();
            px[n - 1] = byte() & 3;
            px[n / 2] = byte() & 3;
            let mut f = frame(r, Some(bytes(12)), px, 8);
            f.flags = (choose(2) as u8) << 6;
            frames.push(f);
        }
        compare(w, h, &Some(bytes(12)), &frames);
    }
    // any frame after many fixed ones: screen width and height, frames
    c10_many {
        let (w, h) = (param(0) as u16, param(1) as u16);
        let mut frames = movie(param(2), w, h, false, true);
        let r = any_rect(w, h);
        let local = if flip() { Some(bytes(12)) } else { None };
        frames.push(frame(r, local, any_pixels(r, 3), 2));
        compare(w, h, &Some(bytes(12)), &frames);
    }
    // a frame of any kind after fixed ones: number, screen width and height
    c10_all {
        any_after(param(0), param(1) as u16, param(2) as u16);
    }
    // a frame of any kind and several heights: bits of local and global table
    c10_kind {
        any_kinds(param(0), param(1));
    }
}
