#!/usr/bin/env python3
"""Writes mon/txt/ranges.go: code points of undisputed width, from the Unicode data of Python.

wide:   East Asian Wide or Fullwidth, assigned, no mark, no Jamo, no code point whose
        default presentation is text (U+3030, U+303D, U+3297, U+3299 ...), no modifier
narrow: Neutral, Narrow or Halfwidth letters, numbers, punctuation and symbols of
        scripts without reordering or conjuncts; the BMP symbols shown as text by default
"""
import unicodedata as u

TEXT_DEFAULT_WIDE = {0x3030, 0x303D, 0x3297, 0x3299, 0x1F202, 0x1F237}
# widths changed in Unicode 16
CHANGED = set(range(0x2630, 0x2638)) | set(range(0x268A, 0x2690)) | set(range(0x4DC0, 0x4E00)) | set(range(0x1D300, 0x1D380))

def wide(c):
    if c in TEXT_DEFAULT_WIDE or c in CHANGED or 0x1100 <= c <= 0x11FF or 0xA960 <= c <= 0xA97F:
        return False
    if 0x1F3FB <= c <= 0x1F3FF or 0x1F260 <= c <= 0x1F265 or c == 0x3000 or 0x16FE0 <= c <= 0x16FE1 or c==0x16fe3:
        return False
    cat = u.category(chr(c))
    return u.east_asian_width(chr(c)) in 'WF' and cat[0] in 'LNPS' and cat not in ('Cn',)

NARROW = [(0xA2, 0xAC), (0xAE, 0x17F), (0x180, 0x24F), (0x370, 0x3FF), (0x400, 0x482), (0x48A, 0x52F), (0x531, 0x58A),
          (0x5D0, 0x5EA), (0x10D0, 0x10FF), (0x1200, 0x1399), (0x13A0, 0x13F5), (0x1400, 0x167F), (0x16A0, 0x16F8),
          (0x1E00, 0x1FFE), (0x2010, 0x2027), (0x2030, 0x205E), (0x2070, 0x209C), (0x20A0, 0x20BF), (0x2100, 0x218B),
          (0x2190, 0x23FF), (0x2400, 0x2426), (0x2460, 0x27BF), (0x27C0, 0x2BFF), (0x2C60, 0x2CFF), (0xA640, 0xA66E),
          (0xFF61, 0xFF9D), (0x10330, 0x1034A), (0x1D400, 0x1D7CB), (0x1F030, 0x1F093), (0x1F0A1, 0x1F0BF),
          (0x1F0D1, 0x1F0F5), (0x1F650, 0x1F67F), (0x1F700, 0x1F773), (0x1F780, 0x1F7D4), (0x1F800, 0x1F80B)]

def narrow(c):
    if c in CHANGED or c in (0xAD, 0x2E3A, 0x2E3B, 0x3248):
        return False
    cat = u.category(chr(c))
    return any(a <= c <= b for a, b in NARROW) and u.east_asian_width(chr(c)) not in 'WF' and \
        cat[0] in 'LNPS' and u.combining(chr(c)) == 0

def ranges(f):
    out, start = [], None
    for c in range(0xA0, 0x40000):
        if f(c):
            if start is None:
                start = c
        elif start is not None:
            out.append((start, c - 1)); start = None
    return out

with open('/verif/mon/txt/ranges.go', 'w') as f:
    f.write('// Code generated by tools/mkranges.py; DO NOT EDIT.\n\npackage txt\n\n')
    for name, fn in (('wideRanges', wide), ('narrowRanges', narrow)):
        rs = ranges(fn)
        f.write(f'var {name} = [][2]rune{{\n')
        for a, b in rs:
            f.write(f'\t{{{a:#x}, {b:#x}}},\n')
        f.write('}\n\n')
        print(name, len(rs), sum(b - a + 1 for a, b in rs))
