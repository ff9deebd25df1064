//! A truncated file is never mistaken for a complete one
use crate::io::*;
use crate::items::*;
use crate::refr::*;
use crate::sym::*;
use crate::{bad, ck, entries};
use gift::Decoder;

fn cut(s: &Sample, kind: usize, at: usize, n: usize) {
    let want = all_items(&s.data, kind);
    ck!(want.len() == s.ends(kind).len());
    let p = Plan::new(&s.data[..at], |_| Event::Pass(n));
    let mut got = Items::new(Decoder::new(p), kind);
    let count = s.complete(kind, at);
    for w in &want[..count] {
        match got.next() {
            Some(Ok(g)) => ck!(same_item(w, &g)),
            _ => bad!(),
        }
    }
    match got.next() {
        Some(Err(e)) => ck!(kind_of(&e) == E_EOF),
        _ => bad!(),
    }
    ck!(got.next().is_none());
    cover(1);
    out(count as u64);
}

entries! {
    // sample, iterator, bytes for each read
    c21_cut {
        let s = sample(param(0));
        let n = if param(2) == 0 { 1 << 20 } else { param(2) };
        cut(&s, param(1), choose(s.data.len()), n);
    }
    // sample, iterator: cut at or beside the end of one of the last blocks
    c21_ends {
        let s = sample(param(0));
        let last = s.blocks.len() - 3;
        let at = s.blocks[last - choose(last.min(40))] + choose(3) - 1;
        cut(&s, param(1), at, 1 << 20);
    }
    // sample: cut before the first frame, with the preamble asked for
    c21_preamble {
        let s = sample(param(0));
        let at = choose(s.frames[0] + 1);
        let whole = Decoder::new(&s.data[..]).into_frames().preamble();
        let mut frames = Decoder::new(&s.data[..at]).into_frames();
        let res = frames.preamble();
        let Ok(Some(whole)) = whole else {
            bad!();
            return;
        };
        match res {
            Ok(Some(p)) => {
                ck!(at > s.start);
                ck!(same_preamble(&whole, &p));
                cover(1);
                match frames.next() {
                    Some(Ok(_)) => ck!(at == s.frames[0]),
                    Some(Err(e)) => {
                        ck!(kind_of(&e) == E_EOF);
                        ck!(at < s.frames[0]);
                        ck!(frames.next().is_none());
                    }
                    None => bad!(),
                }
            }
            Ok(None) => bad!(),
            Err(e) => {
                ck!(kind_of(&e) == E_EOF);
                cover(2);
                ck!(frames.next().is_none());
            }
        }
        out(at as u64);
    }
    // a file of any bytes after the screen descriptor, of the given length
    c21_any {
        let mut v = b"GIF89a".to_vec();
        v.extend([2, 0, 1, 0, 0, 0, 0]);
        let at = v.len();
        v.extend(bytes(param(0)));
        // the blocks of the whole, which need not be valid
        let len = v.len();
        for kind in [BLOCKS, FRAMES, STEPS] {
            let mut whole = Items::new(Decoder::new(&v[..]), kind);
            let cut = if kind == BLOCKS { at + choose(param(0)) } else { len - 1 };
            let mut part = Items::new(Decoder::new(&v[..cut]), kind);
            loop {
                match (whole.next(), part.next()) {
                    (Some(Ok(w)), Some(Ok(p))) => ck!(same_item(&w, &p)),
                    (None, None) => break,
                    (Some(Err(w)), Some(Err(p))) => {
                        ck!(kind_of(&p) == E_EOF || kind_of(&p) == kind_of(&w));
                        break;
                    }
                    (Some(Ok(_)), Some(Err(p))) => {
                        ck!(kind_of(&p) == E_EOF);
                        cover(1);
                        break;
                    }
                    (None, Some(Err(p))) => {
                        ck!(kind_of(&p) == E_EOF);
                        break;
                    }
                    _ => {
                        bad!();
                        break;
                    }
                }
            }
        }
    }
}
