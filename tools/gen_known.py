"""Lists the Big5 characters for which WHATWG excludes the (HKSCS) code the crate picks.

Used once to write the C08 lines of known_findings.txt; checks only read that file."""
rows = [l.split() for l in open('/verif/oracle/big5.txt') if l.strip() and l[0] != '#']
rows = [(int(p), int(c, 16)) for p, c in rows]
def b(p):
    t = p % 157
    return '%02X %02X' % (p // 157 + 0x81, t + (0x40 if t < 0x3F else 0x62))
lo, hi = {}, {}
for p, c in rows:
    (lo if p < 5024 else hi).setdefault(c, []).append(p)
for c in sorted(lo):
    if c in hi:
        print('KNOWN-FINDING: property=C08 encode big5_whatwg U+%04X gives %s, WHATWG selects %s' % (c, b(lo[c][0]), b(hi[c][0])))
