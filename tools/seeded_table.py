"""The table of planted bugs in DESIGN.md, from seeded/*/meta.json."""
import json, glob, os
from collections import defaultdict
d = defaultdict(list)
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d[json.load(open(m))['property']].append(os.path.basename(os.path.dirname(m)))
p = '/verif/DESIGN.md'
s = open(p).read()
a, b = '## Planted bugs\n', '## Observations outside'
t = a + '''
Each was written from a property's text and the code, compiles, passes the
existing tests, and has a demonstration. Every one is caught by the quick check
of its property:

| check | planted bugs |
|---|---|
''' + ''.join(f"| {k} | {', '.join(v)} |\n" for k, v in sorted(d.items())) + '''
What was missed at first led to: values from a small pool (so that equal values
and vtables meet), many vtable layouts per message, drawn schemas that are
broken on purpose, a PATH with and without the system's directories, method
information and recased names in recorded service calls, more kinds of text
damage, skewed file times, neutral attributes, reuse of namespace parts, the
clock and the environment as seams of C07, noisy and odd formatters, odd file
names, values of 4 KB to 512 KB, schemas of a megabyte, stop points at executed
blocks rather than at all blocks, reads on a strict
interpreter, and runs without debug assertions.

'''
if a in s:
    s = s[:s.index(a)] + t + s[s.index(b):]
else:
    s = s.replace(b, t + b, 1)
open(p, 'w').write(s)
