//! Writer failures and short writes
use crate::blocks::*;
use crate::io::*;
use crate::stepw::*;
use crate::sym::*;
use crate::{ck, entries};
use gift::block::*;
use gift::{Encoder, Error, Step};
use std::cell::Cell;
use std::io::Write;

const ALL: usize = 1 << 20;

/// Calls of one of the encoders
enum Calls {
    Blocks(Vec<Block>),
    Frames(Preamble, Vec<Frame>),
    Steps(Option<u16>, bool, Vec<Step>),
}

/// Sizes of images
const SIZES: [(usize, usize); 5] = [(1, 1), (3, 1), (1, 5), (3, 4), (9, 3)];

/// Extension of one of the kinds with given parts
fn extension(kind: usize, parts: &[Vec<u8>]) -> Block {
    match kind {
        0 => {
            let mut b = PlainText::default();
            parts.iter().for_each(|p| b.add_sub_block(p));
            b.into()
        }
        1 => {
            let mut b = Comment::default();
            parts.iter().for_each(|p| b.add_comment(p));
            b.into()
        }
        2 => {
            let mut b = Application::default();
            parts.iter().for_each(|p| b.add_app_data(p));
            b.into()
        }
        _ => {
            let mut b = Unknown::default();
            b.add_sub_block(&[7]);
            parts.iter().for_each(|p| b.add_sub_block(p));
            b.into()
        }
    }
}

fn data(n: usize) -> ImageData {
    let mut d = ImageData::new(n);
    for i in 0..n {
        d.data_mut().push(if i + 2 < n { i as u8 / 2 & 1 } else { byte() & 1 });
    }
    d
}

/// 0 to 2 and 6: blocks, 3: frames, 4 and 5: steps; 7 to 9: an extension,
/// frame or step of which the length, size and tables vary
fn any_calls(n: usize) -> Calls {
    match n {
        0 => Calls::Blocks(
            [(HEADER, 0), (SCREEN, 0), (GLOBAL, 0), (COMMENT, 3), (LOOP, 0), (TRAILER, 0)]
                .iter()
                .map(|(k, s)| any_block(*k, *s).0)
                .collect(),
        ),
        1 => Calls::Blocks(
            [(PLAIN, 3), (CONTROL, 0), (APP, 4), (UNKNOWN, 1), (IMAGE, 0), (LOCAL, 0)]
                .iter()
                .map(|(k, s)| any_block(*k, *s).0)
                .chain([data(2).into()])
                .collect(),
        ),
        2 => {
            // image data in several sub-blocks
            let mut d = ImageData::new(3000);
            for i in 0..3000usize {
                d.data_mut().push((i * i % 251) as u8);
            }
            Calls::Blocks(vec![any_block(COMMENT, 7).0, d.into()])
        }
        6 => {
            let px = (0..66000usize).map(|i| (i * i / 5 % 253) as u8).collect();
            let mut d = ImageData::new(66000);
            *d.data_mut() = px;
            Calls::Blocks(vec![any_block(COMMENT, 7).0, d.into()])
        }
        3 => {
            let mut p = Preamble::default();
            p.logical_screen_desc = LogicalScreenDesc::default()
                .with_screen_width(word())
                .with_flags(0x80)
                .with_background_color_idx(byte());
            p.global_color_table = Some(GlobalColorTable::with_colors(&bytes(6)));
            p.loop_count_ext = Some(Application::with_loop_count(word()));
            let mut c = Comment::default();
            c.add_comment(&bytes(2));
            p.comments.push(c);
            let mut control = GraphicControl::default();
            control.set_flags(byte());
            let desc = ImageDesc::default().with_left(word()).with_width(2).with_height(1);
            let local = LocalColorTable::with_colors(&bytes(6));
            Calls::Frames(
                p,
                vec![
                    Frame::new(Some(control), desc.with_flags(0x80), Some(local), data(2)),
                    Frame::new(None, desc, None, data(2)),
                ],
            )
        }
        7 => {
            let n = [1, 2, 3, 11, 127, 128, 254, 255][choose(8)];
            let mut v = Vec::new();
            let kind = choose(4);
            for _ in 0..1 + choose(3) {
                v.push(bytes(n));
            }
            Calls::Blocks(vec![extension(kind, &v), Trailer::default().into()])
        }
        8 => {
            let (w, h) = SIZES[choose(SIZES.len())];
            let bits = [8, 0, 3, 7][choose(4)];
            let mut p = Preamble::default();
            p.logical_screen_desc = LogicalScreenDesc::default().with_screen_width(word());
            for _ in 0..choose(3) {
                p.comments.push(Comment::default());
            }
            let desc = ImageDesc::default().with_left(word()).with_width(w as u16).with_height(h as u16);
            let flags = byte() & 0x78 | if bits < 8 { 0x80 | bits as u8 } else { 0 };
            let local = (bits < 8).then(|| LocalColorTable::with_colors(&bytes(6 << bits)));
            let control = flip().then(GraphicControl::default);
            Calls::Frames(p, vec![Frame::new(control, desc.with_flags(flags), local, data(w * h))])
        }
        9 => {
            let (w, h) = SIZES[choose(SIZES.len())];
            let n = [1, 2, 3, 5, 33, 256][choose(6)];
            let mut steps = Vec::new();
            for i in 0..2 {
                let px: Vec<u8> = (0..w * h).map(|i| (i % n) as u8).collect();
                let colors: Vec<u8> = (0..3 * n).map(|j| (i + 5 * j) as u8).collect();
                steps.push(Step::with_indexed(raster(w as u32, h as u32, &px), palette(&colors)));
            }
            Calls::Steps(flip().then(word), flip(), steps)
        }
        n => {
            let step = || {
                let px = [byte() & 1, byte() & 1];
                Step::with_indexed(raster(2, 1, &px), palette(&bytes(6)))
                    .with_delay_time_cs(Some(word()))
            };
            Calls::Steps((n == 4).then(word), n == 5, vec![step(), step()])
        }
    }
}

/// Make the calls, giving the result of each to `f`
fn make<W: Write>(calls: &Calls, w: W, mut f: impl FnMut(Result<(), Error>)) {
    let enc = Encoder::new(w);
    match calls {
        Calls::Blocks(b) => {
            let mut enc = enc.into_block_enc();
            for b in b {
                f(enc.encode(b.clone()));
            }
        }
        Calls::Frames(p, frames) => {
            let mut enc = enc.into_frame_enc();
            f(enc.encode_preamble(p));
            for frame in frames {
                f(enc.encode_frame(frame));
            }
            f(enc.encode_trailer());
        }
        Calls::Steps(count, global, steps) => {
            let mut enc = enc.into_step_enc();
            if let Some(c) = count {
                enc = enc.with_loop_count(*c);
            }
            if *global {
                enc = enc.with_global_color_table(&palette(&[1, 2, 3, 4, 5, 6]));
            }
            for s in steps {
                f(enc.encode_step(s));
            }
        }
    }
}

fn whole(calls: &Calls) -> Vec<u8> {
    let log = Log::new();
    make(calls, log.clone(), |r| ck!(r.is_ok()));
    log.bytes()
}

fn compare(calls: &Calls, plan: impl FnMut(usize) -> Event) {
    let want = whole(calls);
    let w = Sink::new(plan);
    let log = w.log.clone();
    make(calls, w, |r| ck!(r.is_ok()));
    let got = log.bytes();
    ck!(got.len() == want.len());
    ck!(same_bytes(&got, &want));
    cover(1);
    out(want.len() as u64);
}

/// Number of writes made when each accepts at most `n` bytes
fn count(calls: &Calls, n: usize) -> usize {
    let writes = Cell::new(0);
    let w = Sink::new(|_| {
        writes.set(writes.get() + 1);
        Event::Pass(n)
    });
    make(calls, w, |_| ());
    writes.get()
}

/// Make the calls with write `from` failing: once, for ever (1) or after an
/// interruption (2)
fn fail(calls: &Calls, n: usize, from: usize, f: usize, how: usize) {
    let want = whole(calls);
    let at = Cell::new(ALL);
    let w = Sink::new(|call| {
        if call + 1 == from && how == 2 {
            Event::Interrupted
        } else if call == from || (call > from && how == 1) {
            Event::Fail(f)
        } else {
            Event::Pass(n)
        }
    });
    let log = w.log.clone();
    let failed = w.failed.clone();
    let mut any = false;
    make(calls, w, |r| {
        match failed.borrow_mut().take() {
            Some(f) => {
                match r {
                    Err(e) => ck!(is_failure(&e, f)),
                    Ok(()) => ck!(false),
                }
                if !any {
                    at.set(log.len());
                }
                any = true;
                cover(1);
            }
            None => ck!(r.is_ok() || any),
        }
    });
    // the trailer of a step encoder is written when it is dropped
    let n = at.get().min(log.len());
    ck!(n <= want.len());
    ck!(same_bytes(&log.bytes()[..n], &want[..n]));
    out(n as u64);
}

entries! {
    // calls: few bytes accepted by each write, with interruptions
    c20_each {
        let calls = any_calls(param(0));
        let n = 1 + choose(4);
        let k = choose(3);
        compare(&calls, |call| {
            if k > 0 && call % (k + 1) != 0 {
                Event::Interrupted
            } else {
                Event::Pass(n)
            }
        });
    }
    // calls, writes chosen one by one from anywhere on
    c20_window {
        let calls = any_calls(param(0));
        let from = choose(count(&calls, ALL));
        compare(&calls, |call| {
            if call < from || call >= from + param(1) {
                return Event::Pass(ALL);
            }
            match choose(4) {
                0 => Event::Pass(1),
                1 => Event::Pass(2),
                2 => Event::Interrupted,
                _ => Event::Pass(ALL),
            }
        });
    }
    // calls, interruptions before any one write
    c20_burst {
        let calls = any_calls(param(0));
        let from = choose(count(&calls, ALL));
        let n = param(1);
        compare(&calls, |call| {
            if call >= from && call < from + n {
                Event::Interrupted
            } else {
                Event::Pass(ALL)
            }
        });
    }
    // calls, bytes for each write: failure of any write, for ever or not
    c20_fail {
        let calls = any_calls(param(0));
        let n = if param(1) == 0 { ALL } else { param(1) };
        let from = choose(count(&calls, n));
        let f = choose(6);
        fail(&calls, n, from, f, choose(3));
    }
    // calls: failure of any kind
    c20_kind {
        let calls = any_calls(param(0));
        let from = choose(count(&calls, ALL));
        fail(&calls, ALL, from, choose(FAILURES), choose(2));
    }
    // calls: largest number of bytes accepted by each write
    c20_chunk {
        let calls = any_calls(param(0));
        let n = 1 + choose(param(1));
        compare(&calls, |_| Event::Pass(n));
    }
}
