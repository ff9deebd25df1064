//! The gift command
use crate::cmd::*;
use crate::gifw::*;
use crate::sym::*;
use crate::{ck, entries};

/// Any value, with the high byte explored separately
fn wide() -> u16 {
    (choose(256) as u16) << 8 | byte() as u16
}

entries! {
    // one frame with any value of one field
    c25_field {
        let mut head = HEAD;
        let mut f = Spec { w: 1, h: 1, ..Spec::default() };
        let mut c = Control { flags: 0, delay: 0, trans: 0 };
        let mut control = false;
        match param(0) {
            0 => f.l = wide(),
            1 => f.t = wide(),
            2 => {
                f.w = wide();
                f.h = 0;
            }
            3 => {
                f.w = 0;
                f.h = wide();
            }
            4 => {
                c.flags = byte();
                c.trans = byte();
                control = true;
            }
            5 => {
                c.delay = match param(1) {
                    0 => choose(65536) as u16,
                    1 => choose(1100) as u16,
                    _ => (choose(256) as u16) << 8 | [0, 1, 99, 200, 255][choose(5)],
                };
                control = true;
            }
            6 => {
                f.inter = flip();
                f.local = flip().then(|| choose(8) as u8);
                head.global = flip().then(|| choose(8) as u8);
            }
            7 => {
                head.count = Some(wide());
                head.new = flip();
            }
            8 => head.w = wide(),
            _ => head.h = wide(),
        }
        f.control = control.then_some(c);
        check_file(head, vec![f], vec![], 1);
    }
    // several frames, differing in all fields
    c25_frames {
        let head = Head { count: flip().then(word_low), ..HEAD };
        let any = choose(param(0));
        let frames = (0..param(0)).map(|i| if i == any { any_spec(choose(6)) } else { spec(choose(6)) });
        let frames = frames.collect();
        check_file(head, frames, vec![], 1);
    }
    // many frames
    c25_many {
        let n = param(0);
        let frames = (0..n).map(|i| if i + 1 == n { any_spec(2) } else { spec(i % 6) }).collect();
        check_file(HEAD, frames, vec![], 1);
    }
    // comments, and the file given more than once
    c25_args {
        let list: [&[&str]; 4] = [&[], &["a"], &["some words", " b "], &["x", "y, frames: 7", "z"]];
        let comments = list[choose(4)].iter().map(|c| vec![c.as_bytes().to_vec()]).collect();
        let head = Head { count: flip().then(word_low), ..HEAD };
        check_file(head, vec![any_spec(choose(6))], comments, 1 + choose(2));
    }
    // file cut anywhere
    c25_cut {
        let mut v = start(&Head { count: Some(3), ..HEAD });
        add(&mut v, &any_spec(1));
        add(&mut v, &any_spec(4));
        trailer(&mut v);
        v.truncate(choose(v.len()));
        run(&[0], [Some(v), None, None], |ok, _| {
            ck!(!ok);
            cover(1);
        });
    }
    // something wrong after one or no frame
    c25_wrong {
        let mut v = start(&HEAD);
        if flip() {
            add(&mut v, &any_spec(0));
        }
        match param(0) {
            5 => {
                let b = byte();
                assume(b != b'G');
                v[0] = b;
            }
            6 => {
                let b = byte();
                assume(b != b'a');
                v[5] = b;
            }
            n => {
                crate::items::wrong(&mut v, n);
            }
        }
        add(&mut v, &any_spec(0));
        trailer(&mut v);
        run(&[0], [Some(v), None, None], |ok, _| {
            ck!(!ok);
            cover(1);
        });
    }
    // no such file
    c25_missing {
        run(&[0], [None, None, None], |ok, out| {
            ck!(!ok);
            ck!(out.is_empty());
            cover(1);
        });
    }
}

