"""gen_design.py: rewrites the generated parts of DESIGN.md (between the marker
lines) from properties.jsonl, the checks themselves and the kept planted bugs."""
import glob, json, os, re
os.chdir('/verif')
notes = {}
exec(open('tools/design_notes.py').read())
out = []
for l in open('properties.jsonl'):
    p = json.loads(l); i = p['id']
    f = next(x for x in ('checks/%s.cpp' % i, 'checks/%s.py' % i) if os.path.exists(x))
    t = open(f).read()
    g = lambda k: ' '.join(re.findall(r'^(?://|#) @%s (.*?)\s*$' % k, t, re.M))
    fam = re.findall(r'^FAMILY\((\w+), (\d+), (\d+)\)', t, re.M) or [(n, a, b) for a, b, n in re.findall(r'^@vh\.family\((\d+), (\d+)\)\s*def (\w+)', t, re.M)]
    out.append('### %s %s\n' % (i, p['title']))
    out.append('*Workload and oracle.* %s.' % g('rule').rstrip('.'))
    if fam:
        out.append('*Bounds.* Cases per family (quick / thorough): ' + ', '.join('%s %s / %s' % x for x in fam) + '.')
    san = re.search(r'^// @san (\w+)', t, re.M)
    if f.endswith('.cpp'):
        out.append('*Instrumentation.* ' + ('ThreadSanitizer.' if san and san.group(1) == 'thread' else 'AddressSanitizer, UndefinedBehaviorSanitizer, assertions of sot-core, Eigen and libstdc++.'))
    if g('assume'):
        out.append('*Assumed.* %s.' % g('assume').rstrip('.'))
    out.append('*Why tests cannot settle it.* ' + p['why_tests_cant'].strip())
    if i in notes:
        out.append('*Notes.* ' + notes[i])
    out.append('')
seeds = []
for m in sorted(glob.glob('seeded/*/meta.json')):
    d = json.load(open(m)); seeds.append('| %s | %s | %s | %s |' % (m.split('/')[1], d['property'], d['what_it_breaks'].replace('|', '/'), d['needs'].replace('|', '/')))
seeds = '| planted bug | caught by | breaks | needs |\n|---|---|---|---|\n' + '\n'.join(seeds)
kn = open('known_findings.txt').read().split('\n')
fx = [re.match(r'fixed: property=(\S+) (\S+) (.*)', k) for k in kn]
fx = '\n'.join('- %s `%s` %s' % (m.group(1), m.group(2), m.group(3)) for m in fx if m)
s = open('DESIGN.md').read()
for name, body in (('properties', '\n'.join(x for x in out if x is not None)), ('planted', seeds), ('fixes', fx)):
    s = re.sub(r'(<!-- %s -->\n).*?(<!-- /%s -->)' % (name, name), lambda m: m.group(1) + body + '\n' + m.group(2), s, flags=re.S)
open('DESIGN.md', 'w').write(s)
