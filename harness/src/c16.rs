//! Encoders accept only valid call orders and close the file once
use crate::blocks::*;
use crate::io::*;
use crate::refr::*;
use crate::stepw::*;
use crate::sym::*;
use crate::{bad, ck, entries};
use gift::block::*;
use gift::{Encoder, Step};

fn any_preamble() -> Preamble {
    let mut p = Preamble::default();
    let (b, _) = any_block(SCREEN, 8);
    if let Block::LogicalScreenDesc(b) = b {
        p.logical_screen_desc = b;
    }
    if flip() {
        let f = p.logical_screen_desc.flags() | 0x80;
        p.logical_screen_desc = p.logical_screen_desc.with_flags(f & 0xF8);
        p.global_color_table = Some(GlobalColorTable::with_colors(&bytes(6)));
    }
    if flip() {
        p.loop_count_ext = Some(Application::with_loop_count(word()));
        let mut c = Comment::default();
        c.add_comment(&bytes(2));
        p.comments.push(c);
    }
    p
}

fn any_frame(full: bool) -> Frame {
    let mut d = ImageData::new(2);
    d.data_mut().push(byte() & 3);
    d.data_mut().push(byte() & 3);
    let mut desc = ImageDesc::default().with_left(word()).with_width(2).with_height(1);
    let mut control = None;
    let mut local = None;
    if full {
        let mut c = GraphicControl::default();
        c.set_flags(byte());
        c.set_delay_time_cs(word());
        control = Some(c);
        desc = desc.with_flags(0x80);
        local = Some(LocalColorTable::with_colors(&bytes(6)));
    }
    Frame::new(control, desc, local, d)
}

/// Check that the file has its blocks in order; returns the number of images
fn well_formed(data: &[u8], closed: bool) -> usize {
    let mut r = RefReader::new(data, 1 << 20);
    let mut images = 0;
    let mut n = 0;
    loop {
        if !closed && r.done() {
            break;
        }
        let Ok(b) = r.next() else {
            bad!();
            return images;
        };
        ck!((b.kind == HEADER) == (n == 0));
        ck!((b.kind == SCREEN) == (n == 1));
        if b.kind == DATA {
            images += 1;
        }
        n += 1;
        if b.kind == TRAILER {
            ck!(closed);
            break;
        }
    }
    ck!(r.done());
    images
}

entries! {
    // number of calls, other frames before
    c16_frames {
        let log = Log::new();
        let mut enc = Encoder::new(log.clone()).into_frame_enc();
        let (mut pre, mut images, mut end) = (false, 0, false);
        for i in 0..param(1) + param(0) {
            item(i, param(1) + param(0));
            let before = log.len();
            let fixed = i < param(1);
            let (res, ok) = match if fixed { i.min(1) } else { choose(3) } {
                0 => {
                    let ok = !pre;
                    pre = true;
                    (enc.encode_preamble(&any_preamble()), ok)
                }
                1 => {
                    let ok = pre && !end;
                    images += ok as usize;
                    (enc.encode_frame(&any_frame(if fixed { i % 2 == 0 } else { flip() })), ok)
                }
                _ => {
                    let ok = pre && !end;
                    end |= ok;
                    (enc.encode_trailer(), ok)
                }
            };
            match res {
                Ok(()) => {
                    ck!(ok);
                    ck!(log.len() > before);
                    cover(1);
                }
                Err(e) => {
                    ck!(!ok);
                    ck!(kind_of(&e) == E_SEQUENCE);
                    ck!(log.len() == before);
                    cover(2);
                }
            }
        }
        drop(enc);
        let v = log.bytes();
        if pre {
            ck!(well_formed(&v, end) == images);
            cover(3);
        } else {
            ck!(v.is_empty());
        }
        out(v.len() as u64);
    }
    // one call of any kind after others
    c16_kind {
        let log = Log::new();
        let mut enc = Encoder::new(log.clone()).into_frame_enc();
        let (mut pre, mut images, mut end) = (false, 0, false);
        let state = choose(6);
        if state > 0 {
            ck!(enc.encode_preamble(&any_preamble()).is_ok());
            pre = true;
        }
        if state > 2 {
            ck!(enc.encode_frame(&any_frame(state == 3)).is_ok());
            images += 1;
        }
        if state == 2 || state > 4 {
            ck!(enc.encode_trailer().is_ok());
            end = true;
        }
        for i in 0..2 {
            let before = log.len();
            let (res, ok) = match if i == 0 { choose(3) } else { 2 } {
                0 => {
                    let mut p = any_preamble();
                    p.header = Header::with_version([b'8', b'7' + 2 * choose(2) as u8, b'a']);
                    for _ in 0..choose(3) {
                        let mut c = Comment::default();
                        if flip() {
                            c.add_comment(&bytes(1));
                        }
                        p.comments.push(c);
                    }
                    let ok = !pre;
                    pre = true;
                    (enc.encode_preamble(&p), ok)
                }
                1 => {
                    let ok = pre && !end;
                    images += ok as usize;
                    let (w, h) = [(1, 1), (2, 1), (3, 3), (1, 5)][choose(4)];
                    let mut d = ImageData::new(w * h);
                    for i in 1..w * h {
                        d.data_mut().push(i as u8 & 1);
                    }
                    d.data_mut().push(byte() & 1);
                    let bits = [0, 0x80, 0x82][choose(3)];
                    let desc = ImageDesc::default()
                        .with_left(word())
                        .with_width(w as u16)
                        .with_height(h as u16)
                        .with_flags(byte() & 0x78 | bits);
                    let mut control = None;
                    if flip() {
                        let mut c = GraphicControl::default();
                        c.set_flags(byte());
                        c.set_delay_time_cs(word());
                        c.set_transparent_color_idx(byte());
                        control = Some(c);
                    }
                    let local = (bits > 0).then(|| LocalColorTable::with_colors(&bytes(6 << (bits & 7))));
                    (enc.encode_frame(&Frame::new(control, desc, local, d)), ok)
                }
                _ => {
                    let ok = pre && !end;
                    end |= ok;
                    (enc.encode_trailer(), ok)
                }
            };
            ck!(res.is_ok() == ok);
            if let Err(e) = res {
                ck!(kind_of(&e) == E_SEQUENCE);
                ck!(log.len() == before);
                cover(2);
            }
            if flip() {
                break;
            }
        }
        drop(enc);
        let v = log.bytes();
        if pre {
            ck!(well_formed(&v, end) == images);
            cover(1);
        } else {
            ck!(v.is_empty());
        }
        out(v.len() as u64);
    }
    // steps of some sizes, palettes and control values
    c16_closed {
        let log = Log::new();
        let mut enc = Encoder::new(log.clone()).into_step_enc();
        if flip() {
            enc = enc.with_loop_count(word());
        }
        if flip() {
            enc = enc.with_global_color_table(&palette(&bytes(9)));
        }
        let (w, h) = [(1, 1), (2, 1), (1, 2), (3, 3), (1, 300), (300, 1), (40, 30)][choose(7)];
        let n = 1 + choose(2);
        for _ in 0..n {
            let k = [1, 2, 3, 256][choose(4)];
            let colors: Vec<u8> = (0..3 * k).map(|i| i as u8).collect();
            let px: Vec<u8> = (0..w * h).map(|i| (i % k) as u8).collect();
            let mut s = Step::with_indexed(raster(w as u32, h as u32, &px), palette(&colors));
            if flip() {
                s = s.with_delay_time_cs(Some(word())).with_transparent_color(Some(byte()));
            }
            ck!(enc.encode_step(&s).is_ok());
        }
        drop(enc);
        let v = log.bytes();
        ck!(well_formed(&v, true) == n);
        cover(1);
        out(v.len() as u64);
    }
    // steps given to a step encoder, of the right size or not, and others
    // before
    c16_steps {
        let log = Log::new();
        let mut enc = Encoder::new(log.clone()).into_step_enc();
        let long = param(1) > 1000;
        if long || flip() {
            enc = enc.with_loop_count(word());
        }
        if long || flip() {
            let colors = if param(1) > 0 { vec![7; 6] } else { bytes(6) };
            enc = enc.with_global_color_table(&palette(&colors));
        }
        ck!(log.len() == 0);
        let mut n = 0;
        for i in 0..param(1) + choose(param(0) + 1) {
            let fixed = i < param(1);
            let good = if fixed { i % 7 != 1 } else { flip() };
            let w = 1 + !good as u32;
            if n == 0 && !good {
                continue;
            }
            let (px, colors) = if fixed { (vec![i as u8 & 1; w as usize], vec![i as u8; 6]) } else { (bytes(w as usize), bytes(6)) };
            let px = px.iter().map(|p| p & 1).collect::<Vec<_>>();
            let mut s = Step::with_indexed(raster(w, 1, &px), palette(&colors));
            if if fixed { i % 2 == 0 } else { flip() } {
                s = s.with_delay_time_cs(Some(if fixed { i as u16 } else { word() }));
            }
            let before = log.len();
            match enc.encode_step(&s) {
                Ok(()) => {
                    ck!(good);
                    n += 1;
                }
                Err(_) => {
                    ck!(!good);
                    ck!(log.len() == before);
                    cover(2);
                }
            }
        }
        drop(enc);
        let v = log.bytes();
        if n > 0 {
            ck!(well_formed(&v, true) == n);
            cover(1);
        } else {
            ck!(v.is_empty());
            cover(3);
        }
        out(v.len() as u64);
    }
}
