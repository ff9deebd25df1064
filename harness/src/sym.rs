//! Interface to the symbolic executor (or, in the replay binary, to a list of
//! concrete bytes).

unsafe extern "C" {
    fn gsym_byte(i: u32) -> u8;
    fn gsym_assume(c: bool);
    fn gsym_assert(c: bool, code: u32);
    fn gsym_cover(i: u32);
    fn gsym_conc(v: u64) -> u64;
    fn gsym_param(i: u32) -> u64;
    fn gsym_out(v: u64);
    fn gsym_panics();
}

static mut NEXT: u32 = 0;
static mut FIXED: bool = false;
static mut STATE: u32 = 1;
static mut LENGTHS: [usize; 8] = [0; 8];
static mut TAIL: usize = 4;

/// Parameters above this stand for every length from one to the rest
const ANY: usize = 1 << 40;

/// Start over numbering the input bytes (replay runs several inputs)
pub fn reset() {
    unsafe {
        NEXT = 0;
        FIXED = false;
        STATE = 1;
        LENGTHS = [0; 8];
        TAIL = 4;
    }
}

/// Begin item `i` of `n`: in a long list, fixed values take the place of new
/// input bytes in all but the last items (four, or two with a list of any
/// length), so that a branch on the contents does not split paths too often
pub fn item(i: usize, n: usize) {
    unsafe { FIXED = i + TAIL < n && (n > 20 || TAIL == 2) }
}

/// Next fixed value
fn next_fixed() -> u8 {
    unsafe {
        STATE = STATE.wrapping_mul(1664525).wrapping_add(1013904223);
        (STATE >> 24) as u8
    }
}

fn is_fixed() -> bool {
    unsafe { FIXED }
}

/// A new unconstrained input byte
pub fn byte() -> u8 {
    if is_fixed() {
        return next_fixed();
    }
    unsafe {
        let n = NEXT;
        NEXT = n + 1;
        gsym_byte(n)
    }
}

/// A new unconstrained 16-bit value
pub fn word() -> u16 {
    let lo = byte();
    let hi = byte();
    u16::from_le_bytes([lo, hi])
}

/// A new input byte less than `n`
pub fn small(n: u8) -> u8 {
    if is_fixed() {
        return next_fixed() % n;
    }
    let b = byte();
    assume(b < n);
    b
}

/// A new input byte other than those
pub fn byte_except(list: [u8; 4]) -> u8 {
    let other = |b| b != list[0] && b != list[1] && b != list[2] && b != list[3];
    let mut b = byte();
    while is_fixed() && !other(b) {
        b = byte();
    }
    assume(other(b));
    b
}

/// A choice among `n` alternatives; each is explored separately
pub fn choose(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    if n > 256 {
        let high = choose(n.div_ceil(256)) << 8;
        return high + choose((n - high).min(256));
    }
    if is_fixed() {
        return next_fixed() as usize % n;
    }
    let b = byte();
    assume((b as usize) < n);
    conc(b as usize)
}

/// A new boolean, explored separately for each value
pub fn flip() -> bool {
    choose(2) == 1
}

/// New input bytes
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(byte());
    }
    v
}

/// Split into one path per feasible value
pub fn conc(v: usize) -> usize {
    unsafe { gsym_conc(v as u64) as usize }
}

pub fn assume(c: bool) {
    unsafe { gsym_assume(c) }
}

pub fn assert_code(c: bool, code: u32) {
    unsafe { gsym_assert(c, code) }
}

/// Record that this place is reachable
pub fn cover(i: u32) {
    unsafe { gsym_cover(i) }
}

/// Parameter of the run (concrete), or any length up to it
pub fn param(i: u32) -> usize {
    let p = unsafe { gsym_param(i) as usize };
    if p <= ANY {
        return p;
    }
    unsafe {
        if LENGTHS[i as usize] == 0 {
            LENGTHS[i as usize] = 1 + choose(p - ANY);
            TAIL = 2;
        }
        LENGTHS[i as usize]
    }
}

/// Whether a parameter stands for any length
pub fn any_length() -> bool {
    unsafe { TAIL == 2 }
}

/// Record a result, compared between the executor and a native run
pub fn out(v: u64) {
    unsafe { gsym_out(v) }
}

/// The next call has to panic
pub fn panics<T>(f: impl FnOnce() -> T, code: u32) {
    unsafe { gsym_panics() }
    let _ = f();
    assert_code(false, code);
}

/// Record result bytes
pub fn out_bytes(v: &[u8]) {
    out(v.len() as u64);
    for b in v {
        out(*b as u64);
    }
}

/// Assert; the code of a failure is the source line
#[macro_export]
macro_rules! ck {
    ($c:expr) => {
        $crate::sym::assert_code($c, line!())
    };
}

/// Fail; the code is the source line
#[macro_export]
macro_rules! bad {
    () => {
        $crate::sym::assert_code(false, line!())
    };
}

/// Define entry points of a module
#[macro_export]
macro_rules! entries {
    ($($n:ident $b:block)*) => {
        $(
            #[unsafe(no_mangle)]
            pub extern "C-unwind" fn $n() $b
        )*
        pub const ENTRIES: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($n), $n)),*];
    };
}
