"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + '/DESIGN.md').read()
head = d[:d.index('## Planted bugs')]
rows = []
for n in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, n)))
    rows.append('| %s | %s%s | %s | %s |' % (n, m['property'], m.get('also', ''), m['what_it_breaks'], m['needs']))
open(V + '/DESIGN.md', 'w').write(head + '''## Planted bugs

One row per folder of `seeded/`: the check that catches it (quick tier, default
seed), what the change breaks and what it takes to see it.  Every row was
confirmed with the patch applied: the build and all stable tests pass, the demo
fails, the check exits 1 with its VIOLATION line; without the patch both pass.

| planted bug | caught by | breaks | needs |
|---|---|---|---|
''' + '\n'.join(rows) + '''

Besides these, random single-token mutations of the sources (operators, constants,
comparisons, deleted statements, in Python and C++) were run against the checks;
those that survive the tests and the checks were read one by one: either they do
not change behaviour (dead code, messages, equivalent bounds), or the check that
should have seen them was extended (single and paired turn kernels in C30, blank
lines in C15, ties in C23 and C26, edge profiles in C28, feet in C29).
''')
