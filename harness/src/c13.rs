//! Unusable frames are rejected with the right error
use crate::compose::*;
use crate::gifw::*;
use crate::refr::*;
use crate::sym::*;
use crate::{bad, ck, entries};
use gift::Decoder;

/// Decode a file with the frame between two good ones; `faults` are the kinds
/// of error of the frame
fn judge(w: u16, h: u16, global: &Option<Vec<u8>>, f: &FrameSpec, faults: u32) {
    judge_after(&[], w, h, global, f, faults);
}

/// The same after other frames
fn judge_after(
    before: &[FrameSpec],
    w: u16,
    h: u16,
    global: &Option<Vec<u8>>,
    f: &FrameSpec,
    faults: u32,
) {
    let good = |l: u16| {
        let px = vec![1];
        let mut g = frame(Rect { l, t: 0, w: 1, h: 1 }, Some(vec![9, 8, 7, 6, 5, 4]), px, 2);
        g.control = None;
        g
    };
    let (a, b) = (good(0), good(1));
    let mut v = Vec::new();
    write_start(&mut v, w, h, global);
    for f in before {
        write_frame(&mut v, f);
    }
    write_frame(&mut v, &a);
    write_frame(&mut v, f);
    write_frame(&mut v, &b);
    trailer(&mut v);
    let mut canvas = Canvas::new(w, h);
    let mut steps = Decoder::new(&v[..]).max_image_sz(None).into_steps();
    for f in before {
        let Some(Ok(s)) = steps.next() else {
            bad!();
            return;
        };
        ck!(canvas.show(f, global).same(&s));
    }
    let Some(Ok(s)) = steps.next() else {
        bad!();
        return;
    };
    ck!(canvas.show(&a, global).same(&s));
    match steps.next() {
        Some(Ok(s)) => {
            ck!(faults == 0);
            ck!(canvas.show(f, global).same(&s));
            cover(1);
        }
        Some(Err(e)) => {
            ck!(kind_of(&e) & faults != 0);
            cover(2);
            out(kind_of(&e) as u64);
        }
        None => bad!(),
    }
    // a rejected frame is not drawn
    let Some(Ok(s)) = steps.next() else {
        bad!();
        return;
    };
    ck!(canvas.show(&b, global).same(&s));
    ck!(steps.next().is_none());
}

entries! {
    // any position: screen width and height, frame width and height,
    // large screen?
    c13_place {
        let (sw, sh) = (param(0) as u16, param(1) as u16);
        let (w, h) = (param(2) as u16, param(3) as u16);
        let (l, t) = (word(), word());
        let out = l as u32 + w as u32 > sw as u32 || t as u32 + h as u32 > sh as u32;
        // of a large screen, only the right or lower edge
        if param(4) > 0 {
            assume(out || (l as u32 + w as u32 + 2 > sw as u32 && t as u32 + h as u32 + 2 > sh as u32));
        }
        let (l, t) = if out { (l, t) } else { (conc(l as usize) as u16, conc(t as usize) as u16) };
        let faults = if out || w == 0 || h == 0 { E_DIMS } else { 0 };
        let px = vec![0; w as usize * h as usize];
        let mut f = frame(Rect { l, t, w, h }, None, px, 2);
        f.flags = byte() & 0x38 | (choose(2) as u8) << 6;
        f.control = Some((byte() & 0xE0 | (choose(5 - 4 * param(4)) as u8) << 2, 0, 0));
        judge(sw, sh, &Some(bytes(6)), &f, faults);
    }
    // any size, with as many pixels as there are
    c13_size {
        let (sw, sh) = (param(0) as u16, param(1) as u16);
        let (l, t) = (choose(sw as usize + 1) as u16, choose(sh as usize + 1) as u16);
        let (w, h) = (choose(sw as usize + 2) as u16, choose(sh as usize + 2) as u16);
        let faults = if w == 0 || h == 0 || l + w > sw || t + h > sh { E_DIMS } else { 0 };
        let px = (0..w * h).map(|_| byte() & 1).collect();
        let local = if flip() { Some(bytes(6)) } else { None };
        let mut f = frame(Rect { l, t, w, h }, local, px, 2);
        f.flags = byte() & 0x38 | (choose(2) as u8) << 6;
        f.control = match choose(3) {
            0 => None,
            1 => Some((1, word(), byte())),
            _ => Some((3 << 2, word(), byte())),
        };
        judge(sw, sh, &Some(bytes(6)), &f, faults);
    }
    // any index: size bits of the local table, of the global table (8: none),
    // which pixel, transparency
    c13_index {
        let (lb, gb) = (param(0), param(1));
        let local = if lb < 8 { Some(bytes(6 << lb)) } else { None };
        let global = if gb < 8 { Some(bytes(6 << gb)) } else { None };
        let i = byte();
        let entries = if lb < 8 { 2 << lb } else if gb < 8 { 2 << gb } else { 0 };
        let mut faults = 0;
        if entries == 0 {
            faults = E_TABLE;
        } else if i as usize >= entries {
            faults = E_INDEX;
        }
        let mut px = vec![0, 1, 0, 1];
        px[param(2)] = i;
        let mut f = frame(Rect { l: 0, t: 0, w: 2, h: 2 }, local, px, 8);
        f.flags = (choose(2) as u8) << 6;
        f.control = match choose(4) {
            0 => None,
            1 => Some((1, 0, byte())),
            2 => Some((3 << 2, 0, byte())),
            _ => Some((2 << 2 | 1, 0, byte())),
        };
        judge(2, 2, &global, &f, faults);
    }
    // after fixed frames: their number, and any index or position
    c13_long {
        let (n, d) = (param(0), if param(0) > 1000 { 1 } else { 4 });
        let before = movie(n, 3, 2, true, true);
        let i = byte() & 7;
        let l = choose(4) as u16;
        let faults = if l > 2 { E_DIMS } else { 0 } | if i > 3 { E_INDEX } else { 0 };
        let mut f = frame(Rect { l, t: 1, w: 1, h: 1 }, None, vec![i], 3);
        f.control = Some(((choose(d) as u8) << 2, 0, 0));
        judge_after(&before, 3, 2, &Some(bytes(12)), &f, faults);
    }
    // a large frame where one pixel of any index, anywhere
    c13_big {
        let (w, h) = (param(0) as u16, param(1) as u16);
        let n = w as usize * h as usize;
        let mut px = vec![0; n];
        let i = byte();
        px[[0, n / 3, n - 1][choose(3)]] = i;
        let faults = if i > 127 { E_INDEX } else { 0 };
        let f = frame(Rect { l: 0, t: 0, w, h }, Some(bytes(384)), px, 8);
        judge(w, h, &None, &f, faults);
    }
    // a good frame of any kind after fixed ones: number, screen width and height
    c13_all {
        any_after(param(0), param(1) as u16, param(2) as u16);
    }
    // a frame of any kind and several heights with any indices: bits of local
    // and global table (8: none)
    c13_kind {
        let (local, global) = (param(0), param(1));
        let h = [1, 2, 5, 9][choose(4)];
        let table = some_table(global);
        let f = any_kind(h, local, global, 255);
        let (sw, sh) = (3 - choose(2) as u16, h + choose(2) as u16);
        let entries = if local < 8 { 2 << local } else if global < 8 { 2 << global } else { 0 };
        let mut faults = 0;
        if entries == 0 {
            faults = E_TABLE;
        } else if f.px.iter().any(|p| *p as usize >= entries) {
            faults = E_INDEX;
        }
        let r = f.rect;
        if r.l + r.w > sw || r.t + r.h > sh {
            faults |= E_DIMS;
        }
        judge(sw, sh, &table, &f, faults);
    }
}
