//! Transparent pixels and step metadata follow the graphic control
use crate::compose::*;
use crate::entries;
use crate::sym::*;

entries! {
    // frames on a two pixel screen, bits of the global table, pixel mask
    c12_seq {
        let global = Some(bytes(6 << param(1)));
        let mut frames = Vec::new();
        for i in 0..param(0) {
            let r = Rect { l: 0, t: 0, w: 2, h: 1 };
            let px = vec![byte() & param(2) as u8, byte() & param(2) as u8];
            let local = if i == 1 && flip() { Some(bytes(6 << param(1))) } else { None };
            let mut f = frame(r, local, px, 2.max(param(1) as u32 + 1));
            if flip() {
                // any flags but the disposal
                let flags = byte() & 0xE3 | (choose(2) as u8) << 2;
                f.control = Some((flags, word(), byte()));
            }
            frames.push(f);
        }
        compare(2, 1, &global, &frames);
    }
    // fixed frames before one with any control, and one after it
    c12_long {
        let mut frames = movie(param(0), 2, 1, true, true);
        let r = Rect { l: 0, t: 0, w: 2, h: 1 };
        let mut f = frame(r, None, vec![byte() & 3, byte() & 3], 2);
        let flags = byte() & 0xE3 | (choose(2) as u8) << 2;
        f.control = Some((flags, word(), byte()));
        frames.push(f);
        let mut g = frame(r, None, vec![byte() & 3, byte() & 3], 2);
        if flip() {
            g.control = Some((byte() & 0xE3, word(), byte()));
        }
        frames.push(g);
        compare(2, 1, &Some(bytes(12)), &frames);
    }
    // a large frame where one pixel of any index may be transparent
    c12_big {
        let (w, h) = (param(0) as u16, param(1) as u16);
        let mut frames = movie(1, w, h, false, true);
        let r = Rect { l: 0, t: 0, w, h };
        let n = w as usize * h as usize;
        let mut px: Vec<u8> = (0..n).map(|i| (i * i / 3) as u8).collect();
        px[n - 1] = byte();
        let mut f = frame(r, Some(bytes(768)), px, 8);
        let t = [0u8, 1, 100, 255][choose(4)];
        f.control = Some((byte() & 0xE2 | 1, word(), t));
        frames.push(f);
        compare(w, h, &Some(bytes(12)), &frames);
    }
    // extensions between the control and its image do not matter
    c12_gap {
        use crate::gifw::*;
        use crate::{bad, ck};
        let mut v = Vec::new();
        write_start(&mut v, 1, 1, &Some(vec![1, 2, 3, 4, 5, 6]));
        let (flags, delay, trans) = (byte() & 0xE3, word(), byte());
        control(&mut v, flags, delay, trans);
        extension(&mut v, [0xFE, 0x01, 0xFF, 0x77][choose(4)], &[&bytes(2)]);
        image(&mut v, 0, 0, 1, 1, 0);
        pixels(&mut v, 2, &[byte() & 1]);
        image(&mut v, 0, 0, 1, 1, 0);
        pixels(&mut v, 2, &[byte() & 1]);
        trailer(&mut v);
        let mut steps = gift::Decoder::new(&v[..]).into_steps();
        let (Some(Ok(a)), Some(Ok(b))) = (steps.next(), steps.next()) else {
            bad!();
            return;
        };
        ck!(a.delay_time_cs().unwrap_or(0) == delay);
        ck!(a.transparent_color().map_or(256, u16::from) == if flags & 1 != 0 { trans as u16 } else { 256 });
        ck!(b.delay_time_cs().is_none());
        ck!(b.transparent_color().is_none());
        cover(1);
        out(flags as u64);
    }
    // a frame of any kind after fixed ones: number, screen width and height
    c12_all {
        any_after(param(0), param(1) as u16, param(2) as u16);
    }
    // a frame of any kind and several heights: bits of local and global table
    c12_kind {
        any_kinds(param(0), param(1));
    }
}
