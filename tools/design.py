"""fill the generated parts of /verif/DESIGN.md: python3 tools/design.py"""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
lev = json.load(open(root + '/tools/levels.json'))
known = json.load(open(root + '/known_findings.json'))


def cell(x):
    return ' '.join(str(x).split()).replace('|', '/')


out = {'props': '## Per property\n\n'}
for p in props:
    t, n = lev[p['id']]
    out['props'] += '* **%s** %s.\n  *How*: %s.\n  *Bounds*: %s.\n  *Beyond tests*: %s\n' % (
        p['id'], p['title'], t, n, p['why_tests_cant'])
rows = ['| change | property | needs |', '|---|---|---|']
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (f.split('/')[-2], m['property'], cell(m['needs'])))
out['seeds'] = '\n'.join(rows) + '\n'
out['fixed'] = '\n'.join('* ' + x[len('fixed: property='):] for x in known['fixed']) + '\n'
s = open(root + '/DESIGN.md').read()
for k, v in out.items():
    s = re.sub('(<!--generated:%s-->\n).*?(<!--end-->)' % k,
               lambda m: m.group(1) + v + m.group(2), s, flags=re.S)
open(root + '/DESIGN.md', 'w').write(s)
