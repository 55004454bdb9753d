#!/usr/bin/env python3
"""Writes harness/cptables.h: byte to code point tables of the charsets, from Python's own codecs."""
import sys, codecs
names = ["ascii","cp037","cp500","cp874"]+["cp125%d"%i for i in range(9)]+["iso8859_%d"%i for i in (1,2,3,4,5,6,7,8,9,10,11,13,14,15,16)]
out = ["// generated by tools/gen_cptables.py", "static const char *cp_names[] = {%s};" % ",".join('"%s"'%n for n in names), "static const int cp_tab[%d][256] = {" % len(names)]
for n in names:
    row = []
    for b in range(256):
        try: row.append(ord(bytes([b]).decode(n)))
        except UnicodeDecodeError: row.append(-1)
    out.append("{" + ",".join(map(str,row)) + "},")
out.append("};")
open(sys.argv[1],"w").write("\n".join(out)+"\n")
