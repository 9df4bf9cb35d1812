#!/usr/bin/env python3
"""Writes engine/xid_table.hpp: the identifier properties (XID_Start, XID_Continue) of all code points assigned in
Unicode 3.2, taken from Python's unicode database (an independent source; these properties are stable)."""
import unicodedata as u, os
out = []
cur = None
for c in range(0x80, 0x110000):
    if 0xd800 <= c < 0xe000 or u.ucd_3_2_0.category(chr(c)) == 'Cn':
        k = None
    elif c in (0x85, 0x200e, 0x200f, 0x2028, 0x2029):
        k = None  # white space
    else:
        k = 2 if chr(c).isidentifier() else 1 if ('a' + chr(c)).isidentifier() else 0
    if cur and cur[2] == k and cur[1] == c - 1:
        cur[1] = c
        continue
    if cur and cur[2] is not None:
        out.append(cur)
    cur = [c, c, k]
if cur[2] is not None:
    out.append(cur)
p = os.path.join(os.path.dirname(__file__), '..', 'engine', 'xid_table.hpp')
with open(p, 'w') as f:
    f.write('// Generated by tools/mkxid.py from the unicode database of Python.\n#pragma once\n')
    f.write('struct XidRange { unsigned lo, hi; int kind; }; // kind: 2 = may start a name, 1 = may continue a name, 0 = neither\n')
    f.write('static const XidRange xid_ranges[] = {\n')
    for i in range(0, len(out), 8):
        f.write('    ' + ' '.join('{0x%x, 0x%x, %d},' % tuple(o) for o in out[i:i + 8]) + '\n')
    f.write('};\n')
print(len(out))
