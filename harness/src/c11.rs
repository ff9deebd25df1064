//! Disposal decides what the next step is drawn on
use crate::compose::*;
use crate::sym::*;
use crate::entries;

/// A frame with any pixels and disposal, or without control
fn any_frame(r: Rect, mask: u8, trans: bool) -> FrameSpec {
    let px = (0..r.w as usize * r.h as usize).map(|_| byte() & mask).collect();
    let mut f = frame(r, None, px, 2);
    let d = choose(9) as u8;
    if d < 8 {
        let mut flags = byte() & 0xE2 | d << 2;
        if trans {
            flags |= choose(2) as u8;
        }
        f.control = Some((flags, 7, 1));
    }
    f
}

entries! {
    // screen width and height, frames
    c11_seq {
        let (w, h) = (param(0) as u16, param(1) as u16);
        let global = Some(bytes(6));
        let mut frames = Vec::new();
        for i in 0..param(2) {
            // the last frame covers one pixel only
            let r = if i + 1 == param(2) {
                Rect { l: choose(w as usize) as u16, t: 0, w: 1, h: 1 }
            } else {
                any_rect(w, h)
            };
            frames.push(any_frame(r, 1, param(3) > 0));
        }
        compare(w, h, &global, &frames);
    }
    // screen width and height, fixed frames, frames after them
    c11_long {
        let (w, h) = (param(0) as u16, param(1) as u16);
        let mut frames = movie(param(2), w, h, true, false);
        for _ in 0..param(3) {
            frames.push(any_frame(any_rect(w, h), 3, false));
        }
        compare(w, h, &Some(bytes(12)), &frames);
    }
    // frames on a two pixel screen which are either pixel or both, with one
    // of the four kinds of disposal
    c11_kinds {
        let mut frames = Vec::new();
        for i in 0..param(0) {
            let k = choose(3) as u16;
            let r = Rect { l: k & 1, t: 0, w: 1 + (k == 2) as u16, h: 1 };
            let mut f = frame(r, None, vec![i as u8 & 7; r.w as usize], 3);
            f.control = Some(((choose(4) as u8) << 2, 0, 0));
            frames.push(f);
        }
        compare(2, 1, &Some(bytes(24)), &frames);
    }
    // a frame of any kind after fixed ones: number, screen width and height
    c11_all {
        any_after(param(0), param(1) as u16, param(2) as u16);
    }
    // a frame of any kind and several heights: bits of local and global table
    c11_kind {
        any_kinds(param(0), param(1));
    }
    // a large or far frame with any disposal between two others: screen width
    // and height, place of the frame
    c11_big {
        let (w, h, l, t) = (param(0) as u16, param(1) as u16, param(2) as u16, param(3) as u16);
        let mut frames = movie(1, w, h, false, false);
        let r = Rect { l, t, w: w - l, h: h - t };
        let n = r.w as usize * r.h as usize;
        let mut px: Vec<u8> = (0..n).map(|i| (i * i / 3) as u8 & 3).collect();
        px[n - 1] = byte() & 3;
        let mut f = frame(r, None, px, 2);
        f.control = Some((byte() & 0xE2 | (choose(4) as u8) << 2 | choose(2) as u8, 7, 1));
        frames.push(f);
        let r = Rect { l: w - 1, t: h - 1, w: 1, h: 1 };
        let f = frame(r, None, vec![byte() & 3], 2);
        frames.push(f);
        compare(w, h, &Some(bytes(12)), &frames);
    }
}
