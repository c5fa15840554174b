# Writes DESIGN.md out of its parts, the harnesses and the planted bugs.
import os, re, json, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); ns = {}
exec(open(V + '/design/props.py').read(), ns); P = ns['P']
import gen
MISSED = ns.get('MISSED', {})
out = open(V + '/design/head.md').read()
for p in gen.PROPS:
    if p[0] not in P: continue
    b = []; o = []; n = 0
    for h in gen.harnesses(p[0]):
        t = open(os.path.join(V, 'harness', h)).read(); b += re.findall(r'^// bound: (.*)$', t, re.M); o += re.findall(r'^// outside: (.*)$', t, re.M); n += len(re.findall(r'^VS_ENTRY', t, re.M))
    out += '### %s %s\n%s\n\nBounds (%d entries): %s.%s Beyond the tests: %s\n\n' % (p[0], p[1], P[p[0]][0], n, '; '.join(b), ' Outside: ' + '; '.join(o) + '.' if o else '', P[p[0]][1])
out += '## 5. Not applicable\n'
for n in gen.NA: out += '- %s %s: %s.\n' % (n[0], n[1], n[10])
out += '\n' + open(V + '/design/tail.md').read()
out += '| bug | property | what it breaks | needs | caught |\n|---|---|---|---|---|\n'
S = V + '/seeded'
for d in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    m = json.load(open(os.path.join(S, d, 'meta.json'))); out += '| %s | %s | %s | %s | %s |\n' % (d, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), MISSED.get(d, 'yes'))
open(V + '/DESIGN.md', 'w').write(out)
