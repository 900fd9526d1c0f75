"""wrap nested CASE expressions (arm ends with ->, next line starts with CASE) in parentheses"""
import sys, re
p = sys.argv[1]
L = open(p).read().split("\n")
out = []
i = 0
while i < len(L):
    out.append(L[i])
    if re.search(r"->\s*(\\\*.*)?$", L[i]) and i + 1 < len(L) and re.match(r"\s+CASE ", L[i + 1]):
        ind = len(L[i + 1]) - len(L[i + 1].lstrip())
        j = i + 1
        while j + 1 < len(L) and L[j + 1].strip() and len(L[j + 1]) - len(L[j + 1].lstrip()) > ind:
            j += 1
        blk = L[i + 1:j + 1]
        blk[0] = blk[0].replace("CASE ", "(CASE ", 1)
        m = re.match(r"(.*?)(\s*\\\*.*)?$", blk[-1])
        blk[-1] = m.group(1) + ")" + (m.group(2) or "")
        out += blk
        i = j
    i += 1
open(p, "w").write("\n".join(out))
