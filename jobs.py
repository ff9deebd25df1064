"""What each check runs: harness entry points with their parameters.

covers: witnesses that must be reached on some path (vacuity guard).
thorough: run in the thorough tier only.
"""


def J(entry, *params, covers=(), **kw):
    return dict(entry=entry, params=list(params), covers=list(covers), **kw)


def T(*a, **kw):
    return J(*a, thorough=True, **kw)


CHECKS = {}

HANG = 3000000  # instructions on one path before it counts as a hang
LONG = 1000000000  # the same for large images
HUGE = 4000000000  # the same for very long files
MANY = 70000  # parts or blocks of very long files
ANY = 1 << 40  # with n added: any number from 1 to n, as separate paths

CHECKS["C01"] = dict(
    bounds="Every byte string of up to 6 (thorough 8) bytes at each of nine places of a file "
    "(start, after header, after screen, image data, code bytes, after a frame, in a looping block, in a graphic control; 12 bytes "
    "between blocks) and of 5 bytes after 600 blocks with 300 frames, in a comment of 300 parts and in long image data, 2 bytes where those are 70000; any screen size, frame rectangle, flags and controls on small canvases; "
    "five ways of iterating; a path may take at most 3M instructions.",
    jobs=[J("c01_bytes", k, n, i, covers=[i + 1], max_steps=HANG)
          for k, n in ((0, 6), (1, 12), (2, 10), (5, 10), (4, 6), (3, 4), (6, 7), (7, 5), (8, 8), (9, 5), (10, 5), (11, 5)) for i in range(5)]
    + [J("c01_bytes", k, 2, i, covers=[i + 1], max_steps=LONG) for k in (12, 13, 14) for i in range(5)]
    + [J("c01_desc", k, i, lim, covers=[i + 1], max_steps=HANG)
       for k, lim in ((0, 6), (1, 6), (2, 6), (3, 12)) for i in range(5)]
    + [T("c01_bytes", k, n, i, covers=[i + 1], max_steps=HANG)
       for k, n in ((0, 13), (1, 14), (2, 13), (5, 13), (4, 8), (3, 6), (6, 9), (8, 10)) for i in range(5)]
    + [T("c01_desc", 4, i, 6, covers=[i + 1], max_steps=HANG) for i in range(4)],
)

LZW_TARGETS = [(m, (1 << w) - 2) for m in range(2, 9) for w in range(m + 1, 12)]
CHECKS["C02"] = dict(
    bounds="Image data of up to 5 (thorough 6) arbitrary bytes after nothing, or 4-5 arbitrary bytes "
    "(3-4 codes) after valid codes that fill the table to just below every width change, 4094, 4095 "
    "and 4096 entries; every minimum code size 2 to 8; images of 3-9 further pixels; up to 3 sub-blocks; every sequence "
    "of up to 8 (thorough 9) codes that are any pixel value, the entry being added, the latest or first entry or clear; 2 "
    "(thorough 4) of those after strings of 1, 2, 3... up to 362 (one of them: 4087) pixels, with sub-blocks of 1, 3 and 255 bytes; 256 pixels more than declared after 73000.",
    jobs=[J("c02_any", 2, 5, 5, covers=[1, 2, 3]), J("c02_any", 2, 3, 2, covers=[1, 2, 3])]
    + [J("c02_any", m, 5, 4, covers=[1, 2, 3]) for m in range(3, 9)]
    + [J("c02_any", 2, 3, 8, covers=[1, 2, 3])]
    + [T("c02_any", 2, 3, 9, covers=[1, 2, 3]), T("c02_any", 3, 4, 9, covers=[1, 2, 3]), T("c02_any", 6, 5, 8, covers=[1, 2, 3])]
    + [J("c02_codes", 2, 0, 8, covers=[1])] + [J("c02_codes", m, 0, 6, covers=[1]) for m in range(3, 9)]
    + [J("c02_codes", m, t, 4, covers=[1]) for m, t in LZW_TARGETS]
    + [J("c02_codes", m, t, 3, covers=[1]) for m in (2, 8) for t in (4093, 4094, 4096)]
    + [T("c02_codes", 2, 0, 9, covers=[1])] + [T("c02_codes", m, t, 5, covers=[1]) for m in (3, 7) for t in (4093, 4094, 4095, 4096)]
    + [T("c02_codes", m, t, 6, covers=[1]) for m, t in LZW_TARGETS if t < 1000]
    + [J("c02_run", m, n, 2, s, covers=[1], max_steps=LONG) for m, n, s in ((2, 362, 255), (8, 300, 1), (2, 120, 3), (4, 200, 255))]
    + [J("c02_run", 2, 4088, 1, 255, covers=[1], max_steps=HUGE)]
    + [J("c02_run", m, 382, 1, 255, 1, covers=[1], max_steps=LONG) for m in (2, 8)]
    + [T("c02_run", m, n, 4, s, covers=[1], max_steps=LONG) for m, n, s in ((3, 362, 255), (7, 300, 1), (5, 120, 2))]
    + [J("c02_split", 2, 4, 4, covers=[1, 2, 3]), J("c02_split", 8, 4, 3, covers=[1, 2, 3])]
    + [J("c02_deep", m, t, 4, 4, covers=[1]) for m, t in LZW_TARGETS if m in (2, 4, 7, 8)]
    + [J("c02_deep", m, t, 5, 3, covers=[1, 2]) for m in (2, 5, 8) for t in (4094, 4095, 4096)]
    + [T("c02_deep", m, t, 5, 4, covers=[1]) for m, t in LZW_TARGETS]
    + [T("c02_deep", m, t, 6, 5, covers=[1]) for m in range(2, 9) for t in (4093, 4094, 4095, 4096)]
    + [T("c02_any", m, 6, 6, covers=[1, 2, 3]) for m in range(2, 9)],
)


def encode_jobs(c):
    """Jobs shared by the two checks of the LZW encoder."""
    w = [1, 2] if c == "c04" else [1]
    return (
        [J(c + "_any", n, b, s, covers=[1]) for n, b, s in
         ((1, 8, 0), (2, 8, 1), (3, 5, 0), (4, 3, 1), (7, 2, 0))]
        + [J(c + "_any", 0, 8, 0, covers=[1])]
        + [J(c + "_runs", n, b, covers=[1]) for n, b in ((24, 8), (40, 2), (40, 1))]
        + [J(c + "_len", 212, 30, covers=[1]), J(c + "_len", 440, 26, covers=[1])]
        + [J(c + "_deep", m, 2, (1 << k) - d, 0, n, 0, a, covers=[1])
           for m in (2, 3, 5, 7, 8) for k in range(m + 1, 12) for d, n, a in ((1, 4, 0), (0, 3, 0), (2, 2, 8))]
        + [J(c + "_deep", m, 2, t, 0, 3, m, 20, covers=w) for m in range(2, 9) for t in (4094,)]
        + [J(c + "_deep", m, 2, t, 0, 3, 0, 0, covers=[1]) for m in (2, 8) for t in (4094, 4095, 4096)]
        + [J(c + "_deep", 3, 2, 9, 1, 3, 3, 0, covers=w)]
        + [J(c + "_big", *p, covers=[1], max_steps=LONG) for p in
           ((200, 8, 1, 40000), (280, 8, 1, 70000), (280, 1, 100, 70000), (260, 8, 70000, 66000), (280, 4, 3, 66000),
            (280, 2, 1, 70000), (280, 3, 1, 70000), (280, 5, 1, 70000), (280, 6, 1, 70000), (280, 7, 1, 70000),
            (1, 1, 3, 255, 8), (2, 2, 5, 256, 8), (17, 1, 2, 4200, 8), (280, 1, 50, 71679, 8))]
        + [T(c + "_any", n, b, s, covers=[1]) for n, b, s in
           ((3, 8, 0), (4, 4, 0), (5, 3, 1), (9, 2, 0))]
        + [T(c + "_deep", m, 2, (1 << k) - d, 0, 5, m, 12, covers=[1])
           for m in range(2, 9) for k in range(m + 1, 12) for d in (0, 1, 2, 3)]
        + [T(c + "_deep", m, 2, t, 1, 4, m, 30, covers=w) for m in (2, 4, 6, 8) for t in (20 + (1 << m), 4095)]
        + [T(c + "_len", b, 20, covers=[1]) for b in (660, 880)]
    )


CHECKS["C03"] = dict(
    bounds="Images of 1-7 (thorough 9) arbitrary pixels of 1-8 bits; runs of up to 40 pixels; 3-6 arbitrary "
    "pixels (thorough 7) after fixed ones bringing the compression table to each width change and to its "
    "limit and past a clear, with code sizes 2-8; lengths on both sides of the sub-block limit; fixed images of 51200 to "
    "71680 pixels (noise of 2 to 8 bits, short and long runs) with one pixel of four values, and of 256 to 71680 small pixels with one of any value.",
    jobs=encode_jobs("c03"),
)
CHECKS["C04"] = dict(
    bounds=CHECKS["C03"]["bounds"] + " Codes after the one completing the image are not examined.",
    jobs=encode_jobs("c04"),
)

# kinds of block in the harness
(HEADER, SCREEN, GLOBAL, PLAIN, CONTROL, COMMENT, APP, UNKNOWN, IMAGE, LOCAL, DATA, TRAILER, LOOP) = range(13)
EXTS = (PLAIN, COMMENT, APP, UNKNOWN)
SHAPES = range(12)

CHECKS["C05"] = dict(
    bounds="Files with one group (extension or image with its table and pixels) of every kind, with every "
    "table size, twelve sub-block shapes (none to three sub-blocks, 1 to 255 bytes) and arbitrary contents "
    "of all fields; one sub-block of 1 to 255 bytes, alone or after up to three, and two of 1 to 30 bytes; 1 to 300 and 70000 sub-blocks; image data of one to 17 sub-blocks; one group after 300 and 70000 others; every sequence of 2 (thorough 3) groups with smaller shapes.",
    jobs=[J("c05_one", k, s, g, covers=[1]) for k in EXTS for s, g in zip(SHAPES, (8, 0, 1, 2, 3, 8, 8, 8, 8, 8, 8, 8))]
    + [J("c05_one", IMAGE, s, g, covers=[1]) for s, g in zip(range(9), (8, 7, 6, 5, 4, 3, 2, 1, 0))]
    + [J("c05_one", k, 0, 8, covers=[1]) for k in (CONTROL, LOOP)]
    + [J("c05_big", 200, 20, covers=[1]), J("c05_big", 440, 20, covers=[1]), J("c05_big", 3800, 2, covers=[1])]
    + [J("c05_many", MANY, covers=[1], max_steps=HUGE), J("c05_many", 300, covers=[1])]
    + [J("c05_one", k, n, 8, covers=[1], max_steps=HUGE) for k in EXTS for n in (300, MANY, ANY + 300, 97, 98, 99)]
    + [J("c05_seq", 2, covers=[1]), T("c05_seq", 3, covers=[1])],
)
CHECKS["C06"] = dict(
    bounds="One block of every kind, with every table size, twelve sub-block shapes (none to three sub-blocks, "
    "1 to 255 bytes), one sub-block of 1 to 255 bytes, alone or after up to three, and two of 1 to 30 bytes, 1 to 300 and 70000 sub-blocks and arbitrary contents of all fields; every sequence of 2 (thorough 3) blocks, one "
    "(thorough two) after 300 others, one after 70000.",
    jobs=[J("c06_block", k, s, covers=[1]) for k in EXTS for s in SHAPES]
    + [J("c06_block", k, s, covers=[1]) for k in (SCREEN, IMAGE) for s in (0, 8, 9)]
    + [J("c06_block", k, s, covers=[1]) for k in (GLOBAL, LOCAL) for s in range(8)]
    + [J("c06_block", k, 0, covers=[1]) for k in (HEADER, CONTROL, LOOP, TRAILER)]
    + [J("c06_block", k, n, covers=[1], max_steps=HUGE) for k in EXTS for n in (300, MANY, ANY + 300, 97, 98, 99)]
    + [J("c06_pair", 1, MANY, covers=[1], max_steps=HUGE)]
    + [J("c06_pair", 2, 0, covers=[1]), J("c06_pair", 1, 300, covers=[1])]
    + [T("c06_pair", 3, 0, covers=[1]), T("c06_pair", 2, 300, covers=[1])],
)
CHECKS["C07"] = dict(
    bounds="Every string of 14 bytes as a file, 10 after the header, 8-10 (thorough 12) after the screen or "
    "an image, 4 (thorough 6) after 300 blocks, 3 after 70000; any screen descriptor and image descriptor with every table size and arbitrary colours; any two "
    "extensions of any label with the listed sub-block shapes, with one of 1 to 255 bytes, alone or after up to three, or two of 1 to 30 bytes, and with 1 to 300 and 70000; loop extensions with any one byte of the name, "
    "data length and sub-block count varied. Graphic controls with other than one sub-block and image data with a "
    "minimum code size outside 2-8 are left out.",
    jobs=[J("c07_bytes", 4, 3, MANY, covers=[5], max_steps=HUGE)] + [J("c07_bytes", k, n, 300, covers=c) for k, n, c in
          ((0, 14, [1, 2, 101, 102, 116]), (1, 10, [2]), (2, 10, [4, 5, 6, 7, 8, 9, 104, 108, 164]), (3, 8, [5]), (4, 4, [5]))]
    + [J("c07_screen", b, covers=[2, 12]) for b in range(9)]
    + [J("c07_image", w, b, covers=[9, 11]) for b in range(9) for w in (0, 1, 3)]
    + [J("c07_ext", a, b, covers=[4, 6, 7, 8]) for a, b in
       ((0, 4), (1, 7), (2, 3), (5, 11), (6, 2), (11, 5), (8, 10), (11, 11), (3, 0), (300, 2), (1, 300), (99, 1), (97, 0), (0, 97), (98, 2), (2, 98))]
    + [J("c07_ext", a, b, covers=[4, 6, 7, 8], max_steps=HUGE) for a, b in ((MANY, 2), (1, MANY), (ANY + 300, 2), (1, ANY + 300))]
    + [J("c07_loop", covers=[7])]
    + [T("c07_bytes", k, 12, 0, covers=[4, 5, 6, 7, 8, 9]) for k in (2, 3)] + [T("c07_bytes", 4, 6, 300, covers=[5])],
)

CHECKS["C08"] = dict(
    bounds="Every sequence of 4 (thorough 5) blocks (graphic control, comment, plain text, unknown, application "
    "or loop extension, complete image of three sizes with no, a 2-entry or a 4-entry local table) with arbitrary "
    "fields, contents and pixels, with and without global table; 2 (thorough 3) of them after 300 others, one after 70000; 2 with images of up to 65535x1 and 2x40001; two frames with and without control and table, the first of every size up to 6x6, 40x1 and 1x40.",
    jobs=[J("c08_size", w, h, covers=[1]) for w, h in ((6, 6), (40, 1), (1, 40))] + [J("c08_seq", 2, 8, 0, w, h, covers=[1, 2, 3, 4]) for w, h in ((4999, 0), (65534, 0), (0, 2500), (0, 40000))]
    + [J("c08_seq", 1, 0, MANY, covers=[1, 2, 4], max_steps=HUGE)] + [J("c08_seq", n, g, k, covers=[1, 2, 3, 4]) for n, g, k in ((3, 8, 0), (4, 0, 0), (2, 0, 300))]
    + [T("c08_seq", n, g, k, covers=[1, 2, 3, 4]) for n, g, k in ((5, 8, 0), (4, 7, 0), (3, 8, 300))],
)
CHECKS["C09"] = dict(
    bounds="Every arrangement of up to 3 (thorough 4) extensions (comment, loop count, other application data, plain "
    "text, unknown) with arbitrary contents before the first frame, every global table size, followed by an image, "
    "a control and image, another frame, more extensions, or no frame with and without trailer; a comment part of 1 to 255 bytes, alone or after up to three; 1 (thorough 2) after 300 others (with loop counts among them), one after 1 to 300 and 70000.",
    jobs=[J("c09_preamble", n, g, k, 0, covers=c) for n, g, k, c in
          ((0, 8, 0, [2]), (3, 8, 0, [1, 2]), (2, 0, 1, [1, 2]), (2, 1, 2, [1, 2]), (2, 8, 2, [1, 2]), (1, 7, 0, [1, 2]),
           (1, 2, 1, [1, 2]), (1, 3, 0, [1, 2]), (1, 4, 2, [1, 2]), (1, 5, 0, [1, 2]), (1, 6, 0, [1, 2]),
           (0, 8, 3, [3]), (2, 0, 3, [3]), (2, 8, 4, [3]), (0, 7, 4, [3]))]
    + [J("c09_preamble", 1, 0, 0, n, covers=[1], max_steps=HUGE) for n in (MANY, ANY + 300, 5, 9)]
    + [J("c09_preamble", 1, 8, k, 0, s, covers=[1, 2]) for k, s in ((0, 99), (0, 97), (2, 98))]
    + [J("c09_preamble", 1, g, k, 300, covers=[1]) for g, k in ((0, 0), (8, 2))]
    + [T("c09_preamble", n, g, k, 0, covers=[1, 2]) for n, g, k in ((3, 1, 1), (3, 2, 2), (4, 8, 0))]
    + [T("c09_preamble", 2, 8, 2, 300, covers=[1])],
)
# size bits of the local and global table (8: none)
KINDS = [(8, 0), (8, 7), (0, 7), (1, 8), (2, 2), (7, 0)]
CHECKS["C10"] = dict(
    bounds="Two frames (thorough three) at every rectangle of screens up to 3x3, with and without local table; one "
    "frame with any index in every size of local and global table; interlaced frames of 1 to 18 rows (thorough 40); "
    "frames at offsets up to 298 on 300 pixel screens and at 8 places of screens of 65535x1 and 1x65535; arbitrary pixels and colours; the last "
    "pixels of images of 2000x1, 1x2000, 65535x1, 1x65535 and 260x257; a frame of any kind after 30 on 2x2 and 3x1 (thorough 3x2); one frame after 300 and (2x1) 70000 others"
    "; a frame of every kind (row order, transparency, disposal, six combinations of table sizes) with eight heights up to 13.",
    jobs=[J("c10_place", w, h, n, covers=[1]) for w, h, n in ((1, 1, 2), (2, 2, 2), (3, 2, 2), (3, 3, 2), (2, 1, 3))]
    + [J("c10_index", l, g, covers=[1]) for l, g in
       [(b, 8) for b in range(8)] + [(8, b) for b in range(8)] + [(0, 7), (7, 0), (3, 4)]]
    + [J("c10_inter", w, h, t, covers=[1]) for h in range(1, 19) for w, t in ((1, 0), (2, 1))]
    + [J("c10_all", 30, w, h, covers=[1]) for w, h in ((2, 2), (3, 1))] + [T("c10_all", 30, 3, 2, covers=[1])]
    + [J("c10_kind", l, g, covers=[1]) for l, g in KINDS]
    + [J("c10_far", w, h, covers=[1]) for w, h in ((300, 1), (1, 300), (65535, 1), (1, 65535))]
    + [J("c10_big", w, h, covers=[1], max_steps=LONG) for w, h in ((2000, 1), (1, 2000), (65535, 1), (1, 65535), (260, 257))]
    + [J("c10_many", 3, 2, 300, covers=[1]), J("c10_many", 2, 1, MANY, covers=[1], max_steps=HUGE)]
    + [T("c10_place", w, h, n, covers=[1]) for w, h, n in ((2, 2, 3), (4, 3, 2))]
    + [T("c10_inter", w, h, t, covers=[1]) for h in range(19, 41) for w, t in ((1, 0), (3, 2))]
    + [T("c10_far", 300, 300, covers=[1])],
)
CHECKS["C11"] = dict(
    bounds="Three frames on screens up to 2x1, two on screens up to 3x2 (thorough three on 2x2 and 3x1), with every "
    "disposal value or no control for each frame, every rectangle, with and without transparency, arbitrary pixels "
    "and colours; every sequence of 3 (thorough 4) kinds of disposal of fixed frames; one frame after 300 others (of one pixel: 70000) and two after 30; a frame of "
    "any kind after 30 on 2x2 and 3x1 (thorough 3x2); large frames and ones far from the origin on screens of up to 65535x1, 1x65535 and 300x220"
    "; a frame of every kind (row order, transparency, disposal, six combinations of table sizes) with eight heights up to 13.",
    jobs=[J("c11_seq", w, h, n, t, covers=[1]) for w, h, n, t in
          ((1, 1, 3, 1), (2, 1, 3, 0), (2, 2, 2, 1), (3, 2, 2, 0), (1, 2, 3, 0))]
    + [J("c11_all", 30, w, h, covers=[1]) for w, h in ((2, 2), (3, 1))] + [T("c11_all", 30, 3, 2, covers=[1])]
    + [J("c11_kind", l, g, covers=[1]) for l, g in KINDS]
    + [J("c11_big", *p, covers=[1], max_steps=LONG) for p in
       ((300, 220, 0, 0), (600, 3, 297, 1), (3, 600, 1, 300), (65535, 1, 33000, 0), (1, 65535, 0, 40000))]
    + [J("c11_long", 1, 1, MANY, 1, covers=[1], max_steps=HUGE), J("c11_long", 3, 2, 300, 1, covers=[1]), J("c11_long", 2, 1, 30, 2, covers=[1]), J("c11_kinds", 3, covers=[1]), T("c11_kinds", 4, covers=[1])]
    + [T("c11_seq", w, h, n, t, covers=[1]) for w, h, n, t in ((2, 2, 3, 0), (2, 1, 3, 1), (3, 1, 3, 0), (1, 1, 4, 0))],
)
CHECKS["C12"] = dict(
    bounds="Two frames (thorough three) of two pixels, with or without graphic control holding any flags, delay and "
    "transparent index, tables of up to 4 entries; one frame with any index into a table of every size; an extension "
    "between the control and its image; one frame after 300 and 70000 others; an image of 300x220 pixels; a "
    "frame of any kind after 30 on 2x2 and 3x1 (thorough 3x2)"
    "; a frame of every kind (row order, transparency, disposal, six combinations of table sizes) with eight heights up to 13.",
    jobs=[J("c12_seq", n, b, m, covers=[1]) for n, b, m in
          [(2, 0, 1), (2, 1, 3)] + [(1, b, (2 << b) - 1) for b in range(8)]]
    + [J("c12_all", 30, w, h, covers=[1]) for w, h in ((2, 2), (3, 1))] + [T("c12_all", 30, 3, 2, covers=[1])]
    + [J("c12_kind", l, g, covers=[1]) for l, g in KINDS]
    + [J("c12_gap", covers=[1]), J("c12_long", 300, covers=[1]), J("c12_long", MANY, covers=[1], max_steps=HUGE), J("c12_big", 300, 220, covers=[1], max_steps=LONG)]
    + [T("c12_seq", 3, 0, 1, covers=[1])],
)
CHECKS["C13"] = dict(
    bounds="Any 16-bit position of frames of several sizes on screens of 2x1 to 3x3 and at the edges of screens up to "
    "65535 wide or high; all sizes up to one more than the screen; any index against every size of local and global "
    "table and against none; each between two good frames; one frame after 300 and 70000 others; any index at the end of an image of 300x220; a "
    "good frame of any kind after 30 on 2x2 and 3x1 (thorough 3x2)"
    "; a frame of every kind (row order, transparency, disposal, six combinations of table sizes) with four heights up to 9, good or with any fault.",
    jobs=[J("c13_place", *p, covers=c) for p, c in
          [((3, 2, 1, 1, 0), [1, 2]), ((3, 2, 2, 2, 0), [1, 2]), ((3, 2, 3, 2, 0), [1, 2]), ((3, 2, 0, 3, 0), [2]),
           ((3, 2, 2, 0, 0), [2]), ((3, 3, 4, 1, 0), [2]), ((3, 3, 1, 4, 0), [2]), ((2, 1, 65535, 1, 0), [2]),
           ((65535, 1, 1, 1, 1), [1, 2]), ((65535, 1, 3, 1, 1), [1, 2]), ((300, 1, 256, 1, 1), [1, 2])]]
    + [J("c13_size", w, h, covers=[1, 2]) for w, h in ((2, 1), (2, 2), (3, 2))]
    + [J("c13_all", 30, w, h, covers=[1]) for w, h in ((2, 2), (3, 1))] + [T("c13_all", 30, 3, 2, covers=[1])]
    + [J("c13_kind", l, g, covers=[2] if (l, g) == (8, 8) else [1, 2]) for l, g in KINDS + [(8, 8)]]
    + [J("c13_long", 300, covers=[1, 2]), J("c13_long", MANY, covers=[1, 2], max_steps=HUGE), J("c13_big", 300, 220, covers=[1, 2], max_steps=LONG)]
    + [J("c13_index", l, g, i, covers=c) for l, g, i, c in
       [(b, 8, b % 4, [1, 2]) for b in range(7)] + [(8, b, b % 4, [1, 2]) for b in range(7)]
       + [(7, 8, 3, [1]), (8, 7, 0, [1]), (8, 8, 0, [2]), (0, 7, 1, [1, 2]), (7, 0, 2, [1])]]
    + [T("c13_index", l, g, i, covers=[1, 2]) for l, g in ((0, 8), (8, 1), (2, 3)) for i in range(4)]
    + [T("c13_size", 3, 3, covers=[1, 2])],
)

CHECKS["C14"] = dict(
    bounds="One to three steps; any 16-bit loop count with the first 8 passes (thorough 20), all passes of counts around 250-265, "
    "32760-32767 and 65520-65535, and with one to four steps of counts 1 to 300 and 20 others up to 10000, no count; two counts in one file; one of eight errors after 0 to 6 and 300 (two of them after 70000) steps, with others after it; 1 to 300 and 70000 steps; 1 and 2 (thorough 3) steps of three sizes with any control, table and flags.",
    jobs=[J("c14_any", n, p, 0, covers=[1, 2]) for n, p in ((1, 8), (2, 6), (3, 6))]
    + [J("c14_any", n, 3, 1, covers=[1]) for n in (1, 2, 3)]
    + [J("c14_near", n, b, k, covers=[1]) for n, b, k in ((2, 250, 4), (1, 32760, 3), (1, 65520, 4))]
    + [J("c14_any", 300, 3, 0, covers=[1, 2]), J("c14_any", 300, 3, 1, covers=[1])]
    + [J("c14_any", MANY, 3, 0, covers=[1, 2], max_steps=HUGE), J("c14_error", MANY, covers=[1], max_steps=HUGE)]
    + [J("c14_any", ANY + 300, 3, k, covers=[1]) for k in (0, 1)]
    + [J("c14_kind", n, p, covers=[1, 2]) for n, p in ((1, 5), (2, 4))] + [T("c14_kind", 3, 3, covers=[1, 2])]
    + [J("c14_some", n, k, covers=[1], max_steps=LONG) for n in (1, 2, 3, 4) for k in (0, 1)]
    + [J("c14_last", covers=[1])] + [J("c14_error", n, covers=[1]) for n in (0, 1, 2, 3, 4, 5, 6, 300)]
    + [T("c14_any", n, 20, 0, covers=[1, 2]) for n in (1, 4)] + [T("c14_near", 1, 1, 7, covers=[1])],
)
LENGTHS = list(range(1, 10)) + [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256]
CHECKS["C15"] = dict(
    bounds="One step with each of 24 (thorough all) palette lengths from 1 to 256, arbitrary colours and indices, without "
    "and with an equal or another global table; 3 steps with the same, other or longer palettes; any delay, transparent "
    "colour, disposal and loop count over 2 steps; sizes up to 3x2; 300 and 70000 steps with varying palettes, one of them arbitrary; two steps of five sizes with any control, palettes of 1 to 256 colours differing in one colour or their length, any loop count and three global tables; two "
    "rasters of 300x220 with 256 colours and (thorough) 65535x1 with 5.",
    jobs=[J("c15_len", n, 2 if n < 5 else 1, g, covers=[1]) for n in LENGTHS for g in (0, 1, 2) if g < 2 or n < 70]
    + [J("c15_seq", n, a, b, covers=[1]) for n, a, b in ((2, 2, 3), (3, 2, 4), (2, 4, 2), (2, 1, 2))]
    + [J("c15_kind", n, covers=[1]) for n in (1, 2, 3, 5, 60, 100, 256)] + [J("c15_meta", n, covers=[1]) for n in (1, 2)] + [J("c15_size", 3, 2, covers=[1])]
    + [J("c15_many", n, g, covers=[1], max_steps=HUGE) for n in (MANY, 300) for g in (0, 1)] + [J("c15_big", 300, 220, 256, covers=[1], max_steps=LONG)]
    + [T("c15_big", 65535, 1, 5, covers=[1], max_steps=LONG)]
    + [T("c15_len", n, 1, g, covers=[1]) for n in range(1, 257) for g in (0, 2)]
    + [T("c15_len", n, 2, 0, covers=[1]) for n in (5, 6, 7, 8, 16)]
    + [T("c15_seq", 3, a, b, covers=[1]) for a, b in ((2, 3), (3, 5))] + [T("c15_seq", 2, 16, 17, covers=[1])],
)
CHECKS["C16"] = dict(
    bounds="Every sequence of 4 (thorough 6) calls of the frame encoder with arbitrary contents; step encoders given up to "
    "3 (thorough 4) steps of the right or wrong size, with and without loop count and global table; one call or step "
    "(thorough two) after 300 others, one after 70000; a preamble with any comments, a frame of four sizes of any kind or the trailer, each followed by the trailer, in each of six states.",
    jobs=[J("c16_frames", n, 0, covers=[1, 2, 3]) for n in (2, 4)] + [J("c16_steps", n, 0, covers=[1, 2, 3]) for n in (2, 3)]
    + [J("c16_steps", 1, MANY, covers=[1, 2], max_steps=HUGE), J("c16_frames", 1, MANY, covers=[1, 2, 3], max_steps=HUGE)]
    + [J("c16_kind", covers=[1, 2]), J("c16_closed", covers=[1])]
    + [J("c16_frames", 1, 300, covers=[1, 2, 3]), J("c16_steps", 1, 300, covers=[1, 2])]
    + [T("c16_frames", 6, 0, covers=[1, 2, 3]), T("c16_steps", 4, 0, covers=[1, 2, 3])]
    + [T("c16_frames", 2, 300, covers=[1, 2, 3]), T("c16_steps", 2, 300, covers=[1, 2])],
)
CHECKS["C17"] = dict(
    bounds="Every sequence of 3 rasters with sides 1 or 2 and of 2 with sides 1 to 4 (thorough 8), two or three with "
    "one of 13 sizes around 257, 65536 and 131072; three of which the second differs in any one bit of a side; three of any kind with palettes of 2 to 256 colours of which one has another size; one after 300 and 70000 others and two after 100.",
    jobs=[J("c17_small", *p, covers=[1, 2]) for p in ((2, 3, 3), (3, 2, 2), (2, 4, 1), (2, 1, 4))]
    + [J("c17_limit", n, i, k, covers=[1, 2, 3]) for n, i, k in ((2, 0, 0), (2, 1, 0), (3, 1, 0), (2, 1, 7), (2, 1, 8))]
    + [J("c17_bits", w, h, covers=[1, 2, 3], max_steps=LONG) for w, h in ((1, 2), (2, 1), (255, 3))]
    + [J("c17_kind", n, covers=[1, 2, 3]) for n in (2, 3, 5, 256)]
    + [J("c17_many", *p, covers=[1, 2], max_steps=HUGE) for p in ((MANY, 1, 3, 4), (300, 1, 3, 4), (100, 2, 3, 3))]
    + [T("c17_small", *p, covers=[1, 2]) for p in ((3, 3, 3), (2, 8, 8))]
    + [T("c17_limit", 3, i, 0, covers=[1, 2, 3]) for i in (0, 2)],
)
CHECKS["C18"] = dict(
    bounds="Image descriptors of any 16-bit width and height with any 64-bit limit, any of six fixed limits or none; "
    "canvases of seven fixed sizes with any limit, after up to two extensions, with a global or local table or both, and canvases of any larger size with seven fixed limits; memory in use "
    "at most 256 KiB plus 64 bytes for each pixel of the limit and byte of the file, for images of any declared size and "
    "a code stream expanding to 100 thousand to 8 million pixels (thorough: limits up to 60), and for images of five sizes up "
    "to 65535x30 equal to the limit; any image size after 300 and 70000 images.",
    jobs=[J("c18_image", 0, covers=[1, 2]), J("c18_image", 2, covers=[1])]
    + [J("c18_image", 1, n, covers=[2] if n == 0 else [1, 2]) for n in (0, 1, 255, 65535, 65536, 33554432)]
    + [J("c18_canvas", n, covers=[1] if n == 1 else [1, 2]) for n in range(7)]
    + [J("c18_refuse", n, covers=[1]) for n in (1, 12, 255, 65535, 65536, 1000000, 33554432)]
    + [J("c18_exact", covers=[1, 2])]
    + [J("c18_mem", 12, k, covers=[1]) for k in range(3)]
    + [J("c18_expand", n, covers=[1]) for n in (500, 3000, 4000)]
    + [J("c18_sized", n, k, 0, covers=[1]) for n in range(5) for k in range(3)]
    + [J("c18_sized", 0, k, 1, covers=[1], max_steps=LONG) for k in (0, 1)] + [J("c18_later", k, n, covers=[1, 2], max_steps=HUGE) for k in (300, MANY) for n in (2, 70000)]
    + [T("c18_mem", 60, k, covers=[1]) for k in range(3)],
)

CHECKS["C19"] = dict(
    bounds="Four sample files (up to two frames, local and global tables up to 256 entries, extensions with sub-blocks of up "
    "to 255 bytes) with arbitrary contents, read as blocks, frames and steps: 1 to 4 bytes for each read with 0 to 2 "
    "interruptions before it; every choice of 1 byte, 2 bytes, interruption or the rest for each of 3 (thorough 5) reads "
    "starting anywhere; up to 1 to 800 bytes for each read; 9 and 1000 interruptions at any read; one of 5 failures of any read, with whole or single-byte "
    "reads; one of 203 failures (every kind and system error) of any read of one file; files of 100 frames, with images of 40x30 and 300x220, and samples with any kind of extension of 0 to 7 parts or of nine part lengths, images of sides 1 to 6 and 1 to 5 of four kinds, and tables of any sizes read as the first of these; interruptions in three forms.",
    jobs=[J("c19_each", s, k, covers=[1], max_steps=LONG) for s in range(11) for k in range(3)]
    + [J("c19_burst", s, k, n, covers=[1]) for s in range(4) for k in range(3) for n in (9, 1000)]
    + [J("c19_burst", 5, k, 9, covers=[1]) for k in range(3)] + [J("c19_fail", 5, k, 0, covers=[1]) for k in range(3)]
    + [J("c19_chunk", 3, k, 800, covers=[1]) for k in range(3)] + [J("c19_kind", 1, k, covers=[1]) for k in range(3)]
    + [J("c19_burst", s, k, 4, covers=[1]) for s in (7, 8, 9, 10) for k in range(3)] + [J("c19_chunk", 8, 0, 260, covers=[1])]
    + [J("c19_fail", s, k, 0, covers=[1]) for s in (7, 8, 10) for k in range(3)] + [J("c19_fail", 9, 0, 0, covers=[1])]
    + [J("c19_window", s, k, n, covers=[1]) for s, n in ((0, 4), (1, 3), (2, 3), (3, 3)) for k in range(3)]
    + [J("c19_fail", s, k, n, covers=[1]) for s in range(3) for k in range(3) for n in (0, 1)]
    + [J("c19_fail", 3, k, 0, covers=[1]) for k in range(3)]
    + [T("c19_window", s, k, 5, covers=[1]) for s in range(4) for k in range(3)]
    + [T("c19_fail", 3, k, 1, covers=[1]) for k in range(3)]
    + [T("c19_fail", s, k, n, covers=[1]) for s in range(4) for k in range(3) for n in (2, 7)],
)
CHECKS["C20"] = dict(
    bounds="Block encoder given every kind of block with arbitrary contents and long image data, frame and step encoders with "
    "two frames: 1 to 4 bytes accepted by each write with 0 to 2 interruptions before it; every choice of 1 byte, 2 bytes, "
    "interruption or all for each of 3 (thorough 5) writes starting anywhere; one of 5 failures or no byte accepted at any "
    "write, once or from there on, with whole, 3-byte or single-byte writes; one of 204 failures (every kind and system error) of any "
    "write; up to 1 to 300 bytes for each write; 9 and 1000 interruptions at any write; an image of 66000 pixels, extensions of 11 part lengths, and frames and steps of several sizes and kinds written as the first of these.",
    jobs=[J("c20_each", c, covers=[1], max_steps=LONG) for c in range(10)]
    + [J("c20_burst", c, 4, covers=[1]) for c in (7, 8, 9)] + [J("c20_fail", c, 0, covers=[1]) for c in (7, 8)] + [T("c20_fail", 9, 0, covers=[1])]
    + [J("c20_chunk", c, 300, covers=[1]) for c in range(6)] + [J("c20_kind", c, covers=[1]) for c in (0, 1, 3, 4)]
    + [T("c20_kind", c, covers=[1]) for c in (2, 5)]
    + [J("c20_burst", c, n, covers=[1]) for c in range(6) for n in (9, 1000)]
    + [J("c20_window", c, 2 if c == 2 else 3, covers=[1]) for c in range(6)]
    + [J("c20_fail", c, n, covers=[1]) for c in range(6) for n in (0, 1, 3) if c != 2 or n == 0]
    + [T("c20_window", c, 3 if c == 2 else 5, covers=[1]) for c in range(6)]
    + [T("c20_fail", 2, 40, covers=[1])],
)
CHECKS["C21"] = dict(
    bounds="Four sample files (up to two frames, local and global tables up to 256 entries, extensions with sub-blocks of up "
    "to 255 bytes) with arbitrary contents, cut at every position, read as blocks, frames and steps with whole or "
    "single-byte reads, and asked for the preamble; a file with an image of 40x30, and samples with any kind of extension of 0 to 7 parts or of nine part lengths, images of sides 1 to 6 and 1 to 5 of four kinds, and tables of any sizes, cut anywhere; files of 100 frames and with an image of 300x220 cut at the ends of the last 40 blocks; any 3 and 5 (thorough 8) bytes after a screen descriptor, cut anywhere.",
    jobs=[J("c21_cut", s, k, n, covers=[1]) for s in range(4) for k in range(3) for n in (0, 1) if s < 3 or n == 0]
    + [J("c21_cut", s, k, 0, covers=[1]) for s in (5, 7, 8, 9, 10) for k in range(3)]
    + [J("c21_ends", s, k, covers=[1], max_steps=LONG) for s in (4, 6) for k in range(3)]
    + [J("c21_preamble", s, covers=[1, 2]) for s in (0, 1, 2, 3, 7, 8, 9, 10)]
    + [J("c21_any", n, covers=[1]) for n in (3, 5)]
    + [T("c21_cut", 3, k, 1, covers=[1]) for k in range(3)] + [T("c21_any", n, covers=[1]) for n in (7, 8)],
)
CHECKS["C22"] = dict(
    bounds="Seven sample files (one of 100 frames, one with an image of 300x220) and samples with any kind of extension of 0 to 7 parts or of nine part lengths, images of sides 1 to 6 and 1 to 5 of four kinds, and tables of any sizes, followed by 4 (thorough 20) arbitrary bytes; a bad block code, control length, image code, "
    "missing pixels (sides of 1 to 6 and 1 to 5) or too large image, with arbitrary values, at 8 places of a file of two frames; any wrong header; files "
    "without frames; a canvas over the limit; any 4 (thorough 8) bytes after a screen descriptor; read as blocks, frames "
    "and steps.",
    jobs=[J("c22_trailer", s, k, 4, covers=[1]) for s in range(11) for k in range(3)]
    + [J("c22_error", k, n, covers=[1, 2]) for k in range(3) for n in range(7)]
    + [J("c22_header", k, covers=[1, 2]) for k in range(3)]
    + [J("c22_none", k, s, covers=[1]) for k in range(3) for s in (0, 1, 2, 3, 7, 8, 10)]
    + [J("c22_canvas", s, covers=[1, 2]) for s in range(4)]
    + [J("c22_any", k, 4, covers=[1, 2] if k == 0 else [1, 2, 3]) for k in range(3)]
    + [T("c22_trailer", s, k, 20, covers=[1]) for s in range(4) for k in range(3)]
    + [T("c22_any", k, n, covers=[1, 2]) for k in range(3) for n in (6, 8)],
)
CHECKS["C23"] = dict(
    bounds="Arbitrary earlier values of all fields, then every sequence of 2 (thorough 3) setter calls with arbitrary values for "
    "screen and image descriptors and graphic controls, 3 (thorough 4) for steps, which are also written and read.",
    jobs=[J("c23_" + e, n, covers=c) for e, n, c in
          (("screen", 2, [1]), ("image", 2, [1]), ("control", 2, [1]), ("step", 3, [1, 2]), ("step", 1, [1, 2]))]
    + [J("c23_method", covers=[1])]
    + [T("c23_" + e, n, covers=[1]) for e, n in (("screen", 3), ("image", 3), ("control", 3), ("step", 4))],
)
CHECKS["C24"] = dict(
    bounds="Every 16-bit length with every existence and ordering, stored in descriptors with any flags; every flags byte; files "
    "with every pair of flags of the screen and image descriptors.",
    jobs=[J("c24_len", covers=[1]), J("c24_default", covers=[1]), J("c24_flags", covers=[1]), J("c24_read", covers=[1])],
)
CHECKS["C25"] = dict(
    bounds="The whole command with one file name (or the same one twice). Files of one frame where one field at a time takes "
    "every value: left, top, width and height (with the other side 0), all control bytes, interlacing with every table "
    "size, loop count with either version, screen size; delays 0..1099 and five low bytes with every high byte (thorough: "
    "all). Files of 2 and 3 (thorough 4) frames of six kinds in any order, one with any control flags; of 1 to 110 (thorough 300), 1001, 10001 and (thorough) 70000 frames; "
    "comments; a two-frame file cut at every position; bad signatures, codes and image data; a missing file.",
    assumptions=["The C library's file, terminal and environment functions are replaced by models over files in memory "
                 "(harness/src/os.rs): reads are whole, standard output is not a terminal and writes do not fail."],
    jobs=[J("c25_field", n, 0, covers=[1]) for n in range(10) if n != 5]
    + [J("c25_field", 5, n, covers=[1]) for n in (1, 2)]
    + [J("c25_frames", n, covers=[1]) for n in (2, 3)]
    + [J("c25_many", n, covers=[1], max_steps=HUGE) for n in (12, 101, 1001, 10001, ANY + 110)] + [T("c25_many", ANY + 300, covers=[1], max_steps=HUGE)]
    + [J("c25_args", covers=[1]), J("c25_cut", covers=[1]), J("c25_missing", covers=[1])]
    + [J("c25_wrong", n, covers=[1]) for n in range(7)]
    + [T("c25_field", 5, 0, covers=[1]), T("c25_frames", 4, covers=[1]), T("c25_many", MANY, covers=[1], max_steps=HUGE)],
)
CHECKS["C26"] = dict(
    bounds="A part of every length 0 to 255 (any contents) or one of seven longer lengths up to 65792, added after 0 to 4 or 300 "
    "others of one to three bytes to each of the four kinds of block, and of length 0, 255, 256 or 257 after 1 to 300 and 70000; loop counts of up to three parts with any contents of the "
    "lengths around 11 and 3; colour tables of every length 0 to 799; image data from rasters of up to 90000 pixels (the last 300 arbitrary); frames with "
    "any control, descriptor and table; steps of up to 4 pixels, of 300x220 (the last 75 arbitrary) and indexed ones of up to 66000; any pair of screen descriptors.",
    jobs=[J("c26_part", k, n, covers=[1, 2, 3], max_steps=HUGE) for k in range(4) for n in (MANY, 0, 1, 2, 4, 300, ANY + 300)]
    + [J("c26_loop", a, b, c, covers=[1, 2] if (a in (11, 100, 101), b, c) == (True, 3, 0) else [2])
       for a in (10, 11, 12, 100, 101) for b in (1, 2, 3, 4, 11) for c in (0, 1, 3)]
    + [J("c26_loop", a, 0, 0, covers=[2]) for a in (3, 11, 14, 100)]
    + [J("c26_loop", 3, 100, 0, covers=[2])]
    + [J("c26_count", covers=[1]), J("c26_table", 0, covers=[1, 2]), J("c26_table", 1, covers=[1, 2])]
    + [J("c26_raster", w, h, covers=[1]) for w, h in ((1, 1), (3, 2), (2, 5), (1, 300), (300, 300))]
    + [J("c26_step", w, h, covers=[1]) for w, h in ((1, 1), (2, 2), (4, 1), (300, 220))]
    + [J("c26_indexed", w, h, n, covers=[1], max_steps=LONG) for w, h, n in ((1, 1, 1), (3, 2, 5), (20, 20, 256), (300, 220, 256))]
    + [J("c26_frame", covers=[1, 2]), J("c26_screen", covers=[1])],
)
CHECKS["C27"] = dict(
    bounds="Preambles with any version, screen descriptor, table of every size or none, loop count or none, up to 40 comments "
    "of up to 255-byte parts, one with a part of 1 to 255 bytes, alone or after up to three, or two of 1 to 30 bytes, and 1 to 300 comments; frames with any control or none, any position and flags, table of every size or none, and 1 to 3 "
    "(thorough 4) pixels of up to 8 bits; sequences of 3 (thorough 5) frames with and without control and table, of 2 after 200 "
    "others, of 70000, and images of up to 90000 fixed pixels.",
    jobs=[J("c27_preamble", b, n, s, covers=[1, 2]) for b, n, s in
          [(8, 0, 0), (8, 1, 0), (8, 2, 3), (8, 3, 7), (3, 40, 4), (8, 1, 97), (8, 1, 98), (8, 1, 99), (8, ANY + 300, 1)] + [(b, 1, b) for b in range(8)]]
    + [J("c27_frame", b, n, k, covers=[1, 2]) for b, n, k in
       [(8, 1, 8), (8, 2, 4), (8, 3, 3), (8, 3, 2)] + [(b, 2, 2) for b in range(8)]]
    + [J("c27_seq", n, m, w, h, covers=[1, 2], max_steps=LONG) for n, m, w, h in
       ((3, 0, 2, 1), (2, 200, 3, 2), (1, 3, 50, 40), (1, 1, 300, 300))]
    + [J("c27_seq", 0, MANY, 1, 1, covers=[1, 2], max_steps=HUGE)]
    + [T("c27_frame", b, n, k, covers=[1, 2]) for b, n, k in ((8, 2, 6), (0, 4, 2), (8, 4, 3))]
    + [T("c27_seq", 5, 0, 3, 1, covers=[1, 2])],
)
CHECKS["C28"] = dict(
    bounds="Every file of up to 10 (thorough 13) arbitrary bytes after the header, the screen descriptor or an image, and of image "
    "data of 1 to 3 (thorough 4) bytes, that can be decoded; pairs of extensions with any label and contents of up to 300 or 70000 "
    "sub-blocks or one of 1 to 255 bytes, alone or after up to three, or two of 1 to 30 bytes; seven sample files with arbitrary contents, one of 100 frames and one with an image of 300x220; samples with any kind of extension of 0 to 7 parts or of nine part lengths, images of sides 1 to 6 and 1 to 5 of four kinds, and tables of any sizes; animations of up to 60 frames of all kinds with "
    "any colours, the first four with any delay and interlacing; copied by blocks and by preamble and frames.",
    jobs=[J("c28_bytes", k, n, covers=[1, 2]) for k, n in ((0, 8), (0, 14), (1, 6), (1, 10), (2, 7), (2, 10), (3, 1), (3, 2), (3, 3))]
    + [J("c28_ext", MANY, 2, covers=[1], max_steps=HUGE)] + [J("c28_ext", a, b, covers=[1]) for a, b in ((0, 3), (5, 7), (6, 4), (8, 9), (10, 1), (300, 2), (99, 1), (97, 0), (1, 98), (ANY + 300, 2))]
    + [J("c28_sample", n, covers=[1, 2], max_steps=LONG) for n in range(11)]
    + [J("c28_movie", n, w, h, covers=[1]) for n, w, h in ((1, 1, 1), (4, 3, 2), (8, 9, 9), (60, 3, 2))]
    + [T("c28_bytes", k, n, covers=[1, 2]) for k, n in ((0, 17), (1, 13), (2, 13), (3, 4))],
)
CHECKS["C29"] = dict(
    bounds="Every kind of error; any unsupported version; I/O errors of 34 kinds without and with five messages or another error inside, and of any 16-bit "
    "system error number, the text of 140 of those (from a model of strerror_r); any 16-bit integer.",
    jobs=[J("c29_plain", covers=[1]), J("c29_version", covers=[1]), J("c29_io", covers=[1]), J("c29_system", covers=[1]), J("c29_text", covers=[1]),
          J("c29_int", covers=[1, 2])],
)
CHECKS["C30"] = dict(
    bounds="The whole command on up to 4 names out of three files (of 1 to 3 frames, with up to two comments), of which one may be "
    "missing, of another version, or cut; a comment of up to 3 of ten pieces (letters, blanks, line ends, a wide blank, accented, "
    "invalid and incomplete characters), or of up to 3 arbitrary bytes (but the escape character) between letters or not; up to 2 "
    "comments of up to 2 parts with such pieces; up to 300 comments with one of up to 255 bytes anywhere among them, 1 to 60 and 10000; one line end anywhere in a part of 30 or 255 bytes; comments after "
    "the first frame.",
    assumptions=CHECKS["C25"]["assumptions"],
    jobs=[J("c30_pieces", n, covers=[1]) for n in (1, 2, 3)] + [J("c30_any", n, covers=[1]) for n in (1, 2, 3)]
    + [J("c30_parts", 1, covers=[1]), J("c30_late", covers=[1])]
    + [J("c30_break", n, covers=[1]) for n in (30, 255)]
    + [J("c30_long", n, m, covers=[1], max_steps=HUGE) for n, m in ((10000, 100), (1, 255), (3, 254), (40, 255), (300, 100), (ANY + 60, 3))]
    + [J("c30_files", n, covers=[1, 2] if n else [2]) for n in range(5)]
    + [T("c30_parts", 2, covers=[1]), T("c30_pieces", 4, covers=[1]), T("c30_any", 4, covers=[1])],
)

NOT_APPLICABLE = {}
