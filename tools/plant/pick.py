#!/usr/bin/env python3
"""pick.py FILE id...: plants only the named ones of a batch."""
import sys, re
s = open(sys.argv[1]).read(); hdr = s[:s.index("\nplant('")] + '\n'; out = hdr
for i in sys.argv[2:]:
    a = s.index("\nplant('%s'" % i); b = s.find("\nplant('", a + 3); out += s[a:len(s) if b < 0 else b] + '\n'
exec(compile(out, sys.argv[1], 'exec'))
