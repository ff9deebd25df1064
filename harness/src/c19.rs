//! How the input arrives does not change what is decoded
use crate::io::*;
use crate::items::*;
use crate::sym::*;
use crate::{bad, ck, entries};
use gift::Decoder;
use std::cell::Cell;

const ALL: usize = 1 << 20;

/// Decode with a plan and compare with the whole
fn compare(s: &Sample, kind: usize, plan: impl FnMut(usize) -> Event) {
    let want = all_items(&s.data, kind);
    ck!(want.len() == s.ends(kind).len());
    let mut got = Items::new(Decoder::new(Plan::new(&s.data, plan)), kind);
    for w in &want {
        match got.next() {
            Some(Ok(g)) => ck!(same_item(w, &g)),
            _ => bad!(),
        }
    }
    ck!(got.next().is_none());
    cover(1);
    out(want.len() as u64);
}

/// Number of reads made when each gives at most `n` bytes
fn count(s: &Sample, kind: usize, n: usize) -> usize {
    let calls = Cell::new(0);
    let p = Plan::new(&s.data, |_| {
        calls.set(calls.get() + 1);
        Event::Pass(n)
    });
    let mut items = Items::new(Decoder::new(p), kind);
    while let Some(Ok(_)) = items.next() {}
    calls.get()
}

/// Decode with read `from` failing, perhaps after an interruption
fn fail(s: &Sample, kind: usize, n: usize, from: usize, f: usize, again: bool) {
    let want = all_items(&s.data, kind);
    let p = Plan::new(&s.data, |call| {
        if call + 1 == from && again {
            Event::Interrupted
        } else if call == from {
            Event::Fail(f)
        } else {
            Event::Pass(n)
        }
    });
    let at = p.at.clone();
    let mut got = Items::new(Decoder::new(p), kind);
    let mut i = 0;
    loop {
        match got.next() {
            Some(Ok(g)) => {
                ck!(i < want.len());
                ck!(same_item(&want[i], &g));
                i += 1;
            }
            Some(Err(e)) => {
                ck!(is_failure(&e, f));
                ck!(i == s.complete(kind, *at.borrow()));
                cover(1);
                break;
            }
            None => {
                bad!();
                break;
            }
        }
    }
    let before = *at.borrow();
    ck!(got.next().is_none());
    ck!(*at.borrow() == before);
    out(i as u64);
}

entries! {
    // sample, iterator: few bytes for each read, with interruptions
    c19_each {
        let s = sample(param(0));
        let n = 1 + choose(4);
        let k = choose(3);
        compare(&s, param(1), |call| {
            if k > 0 && call % (k + 1) != 0 {
                Event::Interrupted
            } else {
                Event::Pass(n)
            }
        });
    }
    // sample, iterator, reads chosen one by one from anywhere on
    c19_window {
        let s = sample(param(0));
        let from = choose(count(&s, param(1), ALL));
        compare(&s, param(1), |call| {
            if call < from || call >= from + param(2) {
                return Event::Pass(ALL);
            }
            match choose(4) {
                0 => Event::Pass(1),
                1 => Event::Pass(2),
                2 => Event::Interrupted,
                _ => Event::Pass(ALL),
            }
        });
    }
    // sample, iterator, interruptions before any one read
    c19_burst {
        let s = sample(param(0));
        let from = choose(count(&s, param(1), ALL));
        let n = param(2);
        compare(&s, param(1), |call| {
            if call >= from && call < from + n {
                Event::Interrupted
            } else {
                Event::Pass(ALL)
            }
        });
    }
    // sample, iterator, bytes for each read: failure of any read
    c19_fail {
        let s = sample(param(0));
        let n = if param(2) == 0 { ALL } else { param(2) };
        let from = choose(count(&s, param(1), n));
        let f = choose(5);
        fail(&s, param(1), n, from, f, flip());
    }
    // sample, iterator: failure of any kind
    c19_kind {
        let s = sample(param(0));
        let from = choose(count(&s, param(1), ALL));
        let f = choose(FAILURES);
        assume(f != FULL);
        fail(&s, param(1), ALL, from, f, false);
    }
    // sample, iterator, largest number of bytes for each read
    c19_chunk {
        let s = sample(param(0));
        let n = 1 + choose(param(2));
        compare(&s, param(1), |_| Event::Pass(n));
    }
}
