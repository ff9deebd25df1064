//! Blocks and tables give back what was put into them
use crate::blocks::*;
use crate::stepw::*;
use crate::sym::*;
use crate::{ck, entries};
use gift::{Decoder, Encoder, Step};
use gift::block::*;
use pix::Raster;
use pix::gray::Gray8;
use pix::rgb::SRgba8;

/// One of the blocks made of parts
enum Parts {
    Plain(PlainText),
    Comment(Comment),
    App(Application),
    Unknown(Unknown),
}

impl Parts {
    fn new(kind: usize) -> Self {
        match kind {
            0 => Parts::Plain(PlainText::default()),
            1 => Parts::Comment(Comment::default()),
            2 => Parts::App(Application::default()),
            _ => Parts::Unknown(Unknown::default()),
        }
    }

    fn add(&mut self, b: &[u8]) {
        match self {
            Parts::Plain(p) => p.add_sub_block(b),
            Parts::Comment(p) => p.add_comment(b),
            Parts::App(p) => p.add_app_data(b),
            Parts::Unknown(p) => p.add_sub_block(b),
        }
    }

    /// Are these all the parts?
    fn holds(&self, want: &[Vec<u8>]) -> bool {
        match self {
            Parts::Plain(p) => same_subs(p.sub_blocks(), want),
            Parts::Comment(p) => same_subs(p.comments(), want),
            Parts::App(p) => same_subs(p.app_data(), want),
            Parts::Unknown(p) => match want.split_first() {
                Some((id, subs)) => same_bytes(p.ext_id(), id) & same_subs(p.sub_blocks(), subs),
                None => p.ext_id().is_empty() & p.sub_blocks().is_empty(),
            },
        }
    }

    /// The same as a block, without the one it came from
    fn through_block(self) -> Option<Self> {
        let b: Block = match self {
            Parts::Plain(p) => p.into(),
            Parts::Comment(p) => p.into(),
            Parts::App(p) => p.into(),
            Parts::Unknown(p) => p.into(),
        };
        ck!(b.has_sub_blocks());
        let c = b.clone();
        drop(b);
        match c {
            Block::PlainText(p) => Some(Parts::Plain(p)),
            Block::Comment(p) => Some(Parts::Comment(p)),
            Block::Application(p) => Some(Parts::App(p)),
            Block::Unknown(p) => Some(Parts::Unknown(p)),
            _ => None,
        }
    }

    fn kind(&self) -> usize {
        match self {
            Parts::Plain(_) => 0,
            Parts::Comment(_) => 1,
            Parts::App(_) => 2,
            Parts::Unknown(_) => 3,
        }
    }
}

/// Lengths of refused parts
const LONG: [usize; 7] = [256, 257, 300, 511, 512, 513, 65792];

/// What loop count do these parts declare?
fn loops(parts: &[Vec<u8>]) -> Option<u16> {
    if parts.len() != 2 || parts[0].len() != 11 || parts[1].len() != 3 {
        return None;
    }
    let id = same_bytes(&parts[0], b"NETSCAPE2.0") | same_bytes(&parts[0], b"ANIMEXTS1.0");
    (id & (parts[1][0] == 1)).then(|| parts[1][1] as u16 | (parts[1][2] as u16) << 8)
}

fn table(global: bool, n: usize, b: &[u8]) -> bool {
    if global {
        let t = GlobalColorTable::with_colors(b);
        let c = t.clone();
        let ok = (t.len() == n) & (t.is_empty() == (n == 0)) & same_bytes(t.colors(), b);
        drop(t);
        let k: Block = c.into();
        ck!(!k.has_sub_blocks());
        let Block::GlobalColorTable(c) = k else { return false };
        ok & same_bytes(c.colors(), b) & (c.len() == n)
    } else {
        let t = LocalColorTable::with_colors(b);
        let c = t.clone();
        let ok = (t.len() == n) & (t.is_empty() == (n == 0)) & same_bytes(t.colors(), b);
        drop(t);
        let k: Block = c.into();
        ck!(!k.has_sub_blocks());
        let Block::LocalColorTable(c) = k else { return false };
        ok & same_bytes(c.colors(), b) & (c.len() == n)
    }
}

fn picture(r: &Raster<SRgba8>, w: usize, h: usize, px: &[u8]) -> bool {
    if r.width() as usize != w || r.height() as usize != h || r.as_u8_slice().len() != px.len() {
        return false;
    }
    same_bytes(r.as_u8_slice(), px)
}

fn written(s: &Step) -> Vec<u8> {
    let mut v = Vec::new();
    ck!(Encoder::new(&mut v).into_step_enc().encode_step(s).is_ok());
    v
}

entries! {
    // a part of any length and contents after some: kind, parts before
    c26_part {
        let mut p = Parts::new(param(0));
        let mut want = Vec::new();
        for i in 0..param(1) {
            item(i, param(1));
            let b = bytes(1 + i % 3);
            p.add(&b);
            want.push(b);
        }
        ck!(p.holds(&want));
        if flip() {
            let n = if param(1) > 1000 || any_length() { choose(2) * 255 } else { choose(256) };
            if n == 0 {
                cover(1);
                panics(|| p.add(&[]), line!());
            }
            let b = bytes(n);
            p.add(&b);
            want.push(b);
            ck!(p.holds(&want));
            ck!(p.kind() == param(0));
            let Some(mut p) = p.through_block() else { return };
            ck!(p.kind() == param(0));
            ck!(p.holds(&want));
            let b = bytes(1);
            p.add(&b);
            want.push(b);
            ck!(p.holds(&want));
            cover(2);
        } else {
            let b = vec![byte(); LONG[choose(if param(1) > 1000 { 2 } else { LONG.len() })]];
            cover(3);
            panics(|| p.add(&b), line!());
        }
    }
    // loop counts of application blocks: part lengths
    c26_loop {
        let mut p = Application::default();
        let mut want = Vec::new();
        ck!(p.loop_count().is_none());
        for n in (0..3).map(param).filter(|n| *n > 0) {
            let b = match n {
                100 => b"NETSCAPE2.0".to_vec(),
                101 => b"ANIMEXTS1.0".to_vec(),
                _ => bytes(n),
            };
            p.add_app_data(&b);
            want.push(b);
            ck!(p.loop_count() == loops(&want));
        }
        if p.loop_count().is_some() {
            cover(1);
        }
        cover(2);
    }
    // an application block made for a loop count
    c26_count {
        let n = word();
        let p = Application::with_loop_count(n);
        ck!(p.loop_count() == Some(n));
        ck!(p.app_data().len() == 2);
        ck!(loops(p.app_data()) == Some(n));
        cover(1);
    }
    // colour tables of any length and contents: global or local
    c26_table {
        let g = param(0) == 0;
        let n = choose(800);
        let b = bytes(n);
        if n % 3 == 0 {
            ck!(table(g, n / 3, &b));
            cover(1);
        } else {
            cover(2);
            if g {
                panics(|| GlobalColorTable::with_colors(&b), line!());
            } else {
                panics(|| LocalColorTable::with_colors(&b), line!());
            }
        }
    }
    // image data taken from a raster: width, height
    c26_raster {
        let (w, h) = (param(0), param(1));
        let mut px: Vec<u8> = (0..w * h).map(|i| (i * 31) as u8).collect();
        let n = w * h;
        for i in n.saturating_sub(300)..n {
            px[i] = byte();
        }
        let mut r = Raster::<Gray8>::with_clear(w as u32, h as u32);
        for y in 0..h {
            for x in 0..w {
                *r.pixel_mut(x as i32, y as i32) = Gray8::new(px[y * w + x]);
            }
        }
        let mut d = ImageData::from(&r);
        ck!(same_bytes(d.data(), &px));
        let mut want = px.clone();
        let b = byte();
        d.data_mut().push(b);
        want.push(b);
        ck!(same_bytes(d.data(), &want));
        let c = d.clone();
        d.data_mut().clear();
        ck!(d.data().is_empty());
        let k: Block = c.into();
        ck!(k.has_sub_blocks());
        let Block::ImageData(c) = k else { return ck!(false) };
        ck!(same_bytes(c.data(), &want));
        cover(1);
    }
    // a frame gives back its pieces, region and control
    c26_frame {
        let control = flip().then(|| {
            let mut c = GraphicControl::default();
            c.set_flags(byte());
            c.set_delay_time_cs(word());
            c.set_transparent_color_idx(byte());
            c
        });
        let desc = ImageDesc::default()
            .with_left(word())
            .with_top(word())
            .with_width(word())
            .with_height(word())
            .with_flags(byte());
        let colors = flip().then(|| bytes(6));
        let px = bytes(2);
        let mut data = ImageData::new(choose(3));
        ck!(data.data().is_empty());
        data.data_mut().extend_from_slice(&px);
        let g = Frame::new(control, desc, colors.as_ref().map(|c| LocalColorTable::with_colors(c)), data);
        ck!(same_desc(&g.image_desc, &desc));
        ck!(same_bytes(g.image_data.data(), &px));
        match (&g.graphic_control_ext, control) {
            (Some(a), Some(b)) => {
                ck!(same_control(*a, b));
                cover(1);
            }
            (None, None) => cover(2),
            _ => ck!(false),
        }
        match (&g.local_color_table, &colors) {
            (Some(a), Some(b)) => ck!(same_bytes(a.colors(), b)),
            (None, None) => {}
            _ => ck!(false),
        }
        ck!(g.left() == desc.left() && g.top() == desc.top());
        ck!(g.width() == desc.width() && g.height() == desc.height());
        let r = g.region();
        ck!((r.left() == desc.left() as i32) & (r.top() == desc.top() as i32));
        ck!((r.right() == desc.left() as i32 + desc.width() as i32)
            & (r.bottom() == desc.top() as i32 + desc.height() as i32)
            | (desc.width() == 0) | (desc.height() == 0));
        ck!((r.width() == desc.width() as u32) & (r.height() == desc.height() as u32)
            | (desc.width() == 0) | (desc.height() == 0));
        ck!(desc.image_sz() == desc.width() as usize * desc.height() as usize);
        match control {
            Some(c) => {
                let how = u8::from(g.disposal_method());
                ck!(how == (c.flags() >> 2) & 7);
                let t = g.transparent_color();
                ck!(t.is_some() == (c.flags() & 1 == 1));
                ck!(t.unwrap_or(c.transparent_color_idx()) == c.transparent_color_idx());
            }
            None => {
                ck!(u8::from(g.disposal_method()) == 0);
                ck!(g.transparent_color().is_none());
            }
        }
    }
    // a step gives back its raster, also its copies: width, height
    c26_step {
        let (w, h) = (param(0), param(1));
        let n = w * h * 4;
        let mut px: Vec<u8> = (0..n).map(|i| (i * 7) as u8).collect();
        for i in n.saturating_sub(300)..n {
            px[i] = byte();
        }
        let mut r = Raster::<SRgba8>::with_clear(w as u32, h as u32);
        for y in 0..h {
            for x in 0..w {
                let p = &px[(y * w + x) * 4..];
                *r.pixel_mut(x as i32, y as i32) = SRgba8::new(p[0], p[1], p[2], p[3]);
            }
        }
        let (d, t) = (word(), byte());
        let s = Step::with_true_color(r);
        let s = match choose(4) {
            0 => s,
            1 => s.with_delay_time_cs(Some(d)),
            2 => s.with_transparent_color(Some(t)),
            _ => s.with_delay_time_cs(Some(d)).with_transparent_color(Some(t)),
        };
        let c = s.clone();
        ck!(c.delay_time_cs() == s.delay_time_cs() && c.transparent_color() == s.transparent_color());
        ck!(picture(s.raster(), w, h, &px));
        let c2 = c.clone().with_delay_time_cs(Some(word())).with_transparent_color(None);
        ck!(c.delay_time_cs() == s.delay_time_cs() && c.transparent_color() == s.transparent_color());
        ck!(c2.transparent_color().is_none());
        drop(s);
        ck!(picture(c.raster(), w, h, &px) & picture(c2.raster(), w, h, &px));
        cover(1);
    }
    // a copy of an indexed step is written as the step is: width, height,
    // colours
    c26_indexed {
        let (w, h, n) = (param(0), param(1), param(2));
        let px: Vec<u8> = (0..w * h).map(|i| (i % n) as u8).collect();
        let colors: Vec<u8> = (0..3 * n).map(|i| (7 * i) as u8).collect();
        let s = Step::with_indexed(raster(w as u32, h as u32, &px), palette(&colors));
        let s = match choose(4) {
            0 => s,
            1 => s.with_delay_time_cs(Some(word())),
            2 => s.with_transparent_color(Some(byte())),
            _ => s.with_disposal_method(byte().into()),
        };
        let c = s.clone();
        let a = written(&s);
        drop(s);
        ck!(same_bytes(&a, &written(&c)));
        let mut d = Decoder::new(&a[..]).into_steps();
        let Some(Ok(d)) = d.next() else { return ck!(false) };
        ck!(d.raster().width() as usize == w && d.raster().height() as usize == h);
        for (p, i) in d.raster().as_u8_slice().chunks(4).zip(&px) {
            ck!(same_bytes(&p[..3], &colors[3 * *i as usize..][..3]) | (c.transparent_color() == Some(*i)));
        }
        cover(1);
    }
    // screens and preambles
    c26_screen {
        let mk = || LogicalScreenDesc::default()
            .with_screen_width(word())
            .with_screen_height(word())
            .with_flags(byte())
            .with_background_color_idx(byte())
            .with_pixel_aspect_ratio(byte());
        let (a, b) = (mk(), mk());
        let same = (a.screen_width() == b.screen_width()) & (a.screen_height() == b.screen_height());
        ck!(a.equal_size(b) == same);
        ck!(b.equal_size(a) == same);
        ck!(a.color_resolution() == 2 << ((a.flags() >> 4) & 7));
        let p = Preamble { logical_screen_desc: a, ..Preamble::default() };
        ck!(p.screen_width() == a.screen_width() && p.screen_height() == a.screen_height());
        ck!(same_bytes(&p.header.version(), b"89a"));
        ck!(p.global_color_table.is_none() && p.loop_count_ext.is_none() && p.comments.is_empty());
        let v = [byte(), byte(), byte()];
        let h = Header::with_version(v);
        ck!(same_bytes(&h.version(), &v));
        let k: Block = h.into();
        ck!(!k.has_sub_blocks() && matches!(k, Block::Header(x) if same_bytes(&x.version(), &v)));
        let k: Block = a.into();
        ck!(!k.has_sub_blocks() && matches!(k, Block::LogicalScreenDesc(x) if same_screen(x, a)));
        let k: Block = Trailer::default().into();
        ck!(!k.has_sub_blocks() && matches!(k, Block::Trailer(_)));
        let mut c = GraphicControl::default();
        c.set_flags(byte());
        c.set_delay_time_cs(word());
        c.set_transparent_color_idx(byte());
        let k: Block = c.into();
        ck!(k.has_sub_blocks() && matches!(k, Block::GraphicControl(x) if same_control(x, c)));
        let d = ImageDesc::default().with_left(word()).with_top(word()).with_width(word()).with_height(word()).with_flags(byte());
        let k: Block = d.into();
        ck!(!k.has_sub_blocks() && matches!(k, Block::ImageDesc(x) if same_desc(&x, &d)));
        cover(1);
    }
}
