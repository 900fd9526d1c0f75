#!/usr/bin/env python3
# short list of rejected instructions: rej.py FILE [chars]
import sys, re
n = int(sys.argv[2]) if len(sys.argv) > 2 else 150
for ln in open(sys.argv[1]):
    ln = ln.replace('\\"', '').replace('"', '').replace('|->', '=').replace('expected', 'e').replace('observed', 'o').replace('mem = {}, ', '').replace('ticks = <<>>, ', '').replace('regs = ','')
    a, _, b = ln.partition('pre = ')
    print(a[:n], ('' if len(a) > n else b[:max(0, n - len(a))]).strip())
