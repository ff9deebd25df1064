//! Descriptor setters change their own field only
use crate::blocks::*;
use crate::io::*;
use crate::stepw::*;
use crate::sym::*;
use crate::{bad, ck, entries};
use gift::block::*;
use gift::{Decoder, Encoder, Step};
use pix::Raster;
use pix::rgb::SRgba8;

const PRESENT: u8 = 0x80;

/// A table configuration: existence, ordering and size bits
fn any_config() -> (ColorTableConfig, bool, bool, u8) {
    let (e, o) = (flip(), flip());
    let bits = choose(8) as u8;
    let existence = if e { ColorTableExistence::Present } else { ColorTableExistence::Absent };
    let ordering = if o { ColorTableOrdering::Sorted } else { ColorTableOrdering::NotSorted };
    (ColorTableConfig::new(existence, ordering, 2 << bits), e, o, bits)
}

fn check_config(c: ColorTableConfig, e: bool, o: bool, bits: u8) {
    ck!((c.existence() == ColorTableExistence::Present) == e);
    ck!((c.ordering() == ColorTableOrdering::Sorted) == o);
    let len = (2 << bits) * e as usize;
    ck!(c.len() == len);
    ck!(c.is_empty() != e);
    ck!(c.size_bytes() == 3 * len);
}

#[derive(Clone, Copy, Default)]
struct Screen {
    w: u16,
    h: u16,
    flags: u8,
    bg: u8,
    aspect: u8,
    /// the colour resolution and the size of an absent table are not settled
    loose: bool,
}

fn check_screen(d: LogicalScreenDesc, m: Screen) {
    ck!(d.screen_width() == m.w);
    ck!(d.screen_height() == m.h);
    ck!(d.background_color_idx() == m.bg);
    ck!(d.pixel_aspect_ratio() == m.aspect);
    if m.loose {
        ck!((d.flags() ^ m.flags) & 0x88 == 0);
    } else {
        ck!(d.flags() == m.flags);
        ck!(d.color_resolution() == 2 << (m.flags >> 4 & 7));
    }
    check_config(d.color_table_config(), m.flags & PRESENT != 0, m.flags & 8 != 0, d.flags() & 7);
}

fn set_screen(d: LogicalScreenDesc, m: &mut Screen, n: usize) -> LogicalScreenDesc {
    match n {
        0 => {
            m.w = word();
            d.with_screen_width(m.w)
        }
        1 => {
            m.h = word();
            d.with_screen_height(m.h)
        }
        2 => {
            m.flags = byte();
            m.loose = false;
            d.with_flags(m.flags)
        }
        3 => {
            m.bg = byte();
            d.with_background_color_idx(m.bg)
        }
        4 => {
            m.aspect = byte();
            d.with_pixel_aspect_ratio(m.aspect)
        }
        _ => {
            let (c, e, o, bits) = any_config();
            m.flags = (e as u8) << 7 | bits << 4 | (o as u8) << 3 | bits;
            m.loose = !e;
            let d = d.with_color_table_config(c);
            ck!(d.color_table_config() == c);
            d
        }
    }
}

#[derive(Clone, Copy, Default)]
struct Image {
    l: u16,
    t: u16,
    w: u16,
    h: u16,
    flags: u8,
    loose: bool,
}

fn check_image(d: ImageDesc, m: Image) {
    ck!(d.left() == m.l);
    ck!(d.top() == m.t);
    ck!(d.width() == m.w);
    ck!(d.height() == m.h);
    ck!(d.image_sz() == m.w as usize * m.h as usize);
    let mask = if m.loose { 0xF8 } else { 0xFF };
    ck!((d.flags() ^ m.flags) & mask == 0);
    ck!(d.interlaced() == (m.flags & 0x40 != 0));
    check_config(d.color_table_config(), m.flags & PRESENT != 0, m.flags & 0x20 != 0, d.flags() & 7);
}

fn set_image(d: ImageDesc, m: &mut Image, n: usize) -> ImageDesc {
    match n {
        0 => {
            m.l = word();
            d.with_left(m.l)
        }
        1 => {
            m.t = word();
            d.with_top(m.t)
        }
        2 => {
            m.w = word();
            d.with_width(m.w)
        }
        3 => {
            m.h = word();
            d.with_height(m.h)
        }
        4 => {
            m.flags = byte();
            m.loose = false;
            d.with_flags(m.flags)
        }
        5 => {
            let i = flip();
            m.flags = m.flags & !0x40 | (i as u8) << 6;
            d.with_interlaced(i)
        }
        _ => {
            let (c, e, o, bits) = any_config();
            m.flags = m.flags & 0x58 | (e as u8) << 7 | (o as u8) << 5 | bits;
            m.loose = !e;
            let d = d.with_color_table_config(c);
            ck!(d.color_table_config() == c);
            d
        }
    }
}

/// Any disposal method, with its bits
fn any_method() -> (DisposalMethod, u8) {
    match choose(5) {
        0 => (DisposalMethod::NoAction, 0),
        1 => (DisposalMethod::Keep, 1),
        2 => (DisposalMethod::Background, 2),
        3 => (DisposalMethod::Previous, 3),
        _ => {
            let n = byte();
            (DisposalMethod::Reserved(n), n & 7)
        }
    }
}

fn check_method(d: DisposalMethod, bits: u8) {
    let (n, v) = match d {
        DisposalMethod::NoAction => (0, 0),
        DisposalMethod::Keep => (1, 1),
        DisposalMethod::Background => (2, 2),
        DisposalMethod::Previous => (3, 3),
        DisposalMethod::Reserved(n) => (if n < 4 { 8 } else { n }, n),
    };
    ck!(n == bits);
    ck!(v == bits);
    ck!(u8::from(d) == bits);
}

#[derive(Clone, Copy, Default)]
struct Control {
    flags: u8,
    delay: u16,
    trans: u8,
}

fn check_control(c: GraphicControl, m: Control) {
    ck!(c.flags() == m.flags);
    ck!(c.user_input() == (m.flags & 2 != 0));
    ck!(c.delay_time_cs() == m.delay);
    ck!(c.transparent_color_idx() == m.trans);
    match c.transparent_color() {
        Some(t) => ck!((m.flags & 1 != 0) & (t == m.trans)),
        None => ck!(m.flags & 1 == 0),
    }
    check_method(c.disposal_method(), m.flags >> 2 & 7);
}

fn set_control(c: &mut GraphicControl, m: &mut Control, n: usize) {
    match n {
        0 => {
            m.flags = byte();
            c.set_flags(m.flags);
        }
        1 => {
            let (d, bits) = any_method();
            m.flags = m.flags & !0x1C | bits << 2;
            c.set_disposal_method(d);
        }
        2 => {
            let u = flip();
            m.flags = m.flags & !2 | (u as u8) << 1;
            c.set_user_input(u);
        }
        3 => {
            m.delay = word();
            c.set_delay_time_cs(m.delay);
        }
        4 => {
            m.trans = byte();
            c.set_transparent_color_idx(m.trans);
        }
        5 => {
            m.trans = byte();
            m.flags |= 1;
            c.set_transparent_color(Some(m.trans));
        }
        _ => {
            m.trans = 0;
            m.flags &= !1;
            c.set_transparent_color(None);
        }
    }
}

entries! {
    // setter calls after setting all fields
    c23_screen {
        let mut m = Screen::default();
        let mut d = LogicalScreenDesc::default();
        check_screen(d, m);
        for n in 0..5 {
            d = set_screen(d, &mut m, n);
        }
        check_screen(d, m);
        for _ in 0..param(0) {
            d = set_screen(d, &mut m, choose(6));
            check_screen(d, m);
        }
        let (w, h) = (word(), word());
        let other = LogicalScreenDesc::default().with_screen_width(w).with_screen_height(h);
        ck!(d.equal_size(other) == ((m.w == w) & (m.h == h)));
        let p = Preamble { logical_screen_desc: d, ..Preamble::default() };
        ck!(p.screen_width() == m.w);
        ck!(p.screen_height() == m.h);
        cover(1);
    }
    c23_image {
        let mut m = Image::default();
        let mut d = ImageDesc::default();
        check_image(d, m);
        for n in 0..5 {
            d = set_image(d, &mut m, n);
        }
        check_image(d, m);
        for _ in 0..param(0) {
            d = set_image(d, &mut m, choose(7));
            check_image(d, m);
        }
        let f = Frame::new(None, d, None, ImageData::new(0));
        ck!((f.left() == m.l) & (f.top() == m.t) & (f.width() == m.w) & (f.height() == m.h));
        let r = f.region();
        ck!((r.left() == m.l as i32) & (r.top() == m.t as i32));
        ck!((r.width() == m.w as u32) & (r.height() == m.h as u32));
        check_method(f.disposal_method(), 0);
        ck!(f.transparent_color().is_none());
        cover(1);
    }
    c23_control {
        let mut m = Control::default();
        let mut c = GraphicControl::default();
        check_control(c, m);
        for n in [0, 3, 4] {
            set_control(&mut c, &mut m, n);
        }
        check_control(c, m);
        for _ in 0..param(0) {
            set_control(&mut c, &mut m, choose(7));
            check_control(c, m);
        }
        let f = Frame::new(Some(c), ImageDesc::default(), None, ImageData::new(0));
        check_method(f.disposal_method(), m.flags >> 2 & 7);
        match f.transparent_color() {
            Some(t) => ck!((m.flags & 1 != 0) & (t == m.trans)),
            None => ck!(m.flags & 1 == 0),
        }
        cover(1);
    }
    // disposal methods and their numbers
    c23_method {
        let n = byte();
        let d = DisposalMethod::from(n);
        ck!(u8::from(d) == n & 7);
        let (d, bits) = any_method();
        ck!(u8::from(d) == bits);
        cover(1);
    }
    // setter calls of a step, which is then written
    c23_step {
        let mut m = Control::default();
        let clr = [byte(), byte(), byte()];
        let indexed = flip();
        let mut s = if indexed {
            Step::with_indexed(raster(1, 1, &[0]), palette(&clr))
        } else {
            Step::with_true_color(Raster::with_color(1, 1, SRgba8::new(clr[0], clr[1], clr[2], 255)))
        };
        for _ in 0..param(0) {
            s = match choose(5) {
                0 => {
                    let (d, bits) = any_method();
                    m.flags = m.flags & !0x1C | bits << 2;
                    s.with_disposal_method(d)
                }
                1 => {
                    m.trans = byte();
                    m.flags |= 1;
                    s.with_transparent_color(Some(m.trans))
                }
                2 => {
                    m.trans = 0;
                    m.flags &= !1;
                    s.with_transparent_color(None)
                }
                3 => {
                    m.delay = word();
                    s.with_delay_time_cs(Some(m.delay))
                }
                _ => {
                    m.delay = 0;
                    s.with_delay_time_cs(None)
                }
            };
            let none = (m.flags == 0) & (m.delay == 0) & (m.trans == 0);
            match s.delay_time_cs() {
                Some(d) => ck!(!none & (d == m.delay)),
                None => ck!(none),
            }
            match s.transparent_color() {
                Some(t) => ck!((m.flags & 1 != 0) & (t == m.trans)),
                None => ck!(m.flags & 1 == 0),
            }
        }
        cover(1);
        if !indexed {
            let px = s.raster().pixel(0, 0);
            ck!(px == SRgba8::new(clr[0], clr[1], clr[2], 255));
            return;
        }
        let log = Log::new();
        let mut enc = Encoder::new(log.clone()).into_step_enc();
        ck!(enc.encode_step(&s).is_ok());
        drop(enc);
        let v = log.bytes();
        match Decoder::new(&v[..]).into_frames().next() {
            Some(Ok(f)) => match f.graphic_control_ext {
                Some(c) => {
                    let mut want = GraphicControl::default();
                    want.set_flags(m.flags);
                    want.set_delay_time_cs(m.delay);
                    want.set_transparent_color_idx(m.trans);
                    ck!(same_control(c, want));
                    ck!((m.flags != 0) | (m.delay != 0) | (m.trans != 0));
                }
                None => ck!((m.flags == 0) & (m.delay == 0) & (m.trans == 0)),
            },
            _ => bad!(),
        }
        cover(2);
    }
}
