"""Fills the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST = {'b11': 'missed; S06 strengthened', 'c03': 'missed; larger elements added', 'c07': 'missed; failures depending on earlier cases are kept now',
         'c11': 'missed; numbers equal modulo 2^32 added', 'c16': 'made the check hang; SIGPIPE handling corrected, more two-port operations'}
FIRST.update(json.load(open(os.path.join(V, 'tools', 'first.json'))) if os.path.exists(os.path.join(V, 'tools', 'first.json')) else {})
rows = ['| id | property | needs | first verdict |', '|----|----|----|----|']
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    n = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    rows.append('| %s | %s | %s: %s | %s |' % (n, m['property'], m['needs'], m['what_it_breaks'], FIRST.get(n.split('-')[0], 'caught')))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
t = '\n'.join(rows) + '\n\nEach is caught by the check of its property.'
s = re.sub(r'(?s)<!-- table -->.*<!-- end -->', lambda m: '<!-- table -->\n' + t + '\n<!-- end -->', s)
open(p, 'w').write(s)
