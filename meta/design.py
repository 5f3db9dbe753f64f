"""fills the generated tables of DESIGN.md (between the marker lines) from seeded/ and meta/list.py"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def fill(text, mark, body):
    return re.sub(r'(<!-- %s -->\n).*?(<!-- end -->)' % mark, lambda m: m[1] + body + '\n' + m[2], text, flags=re.S)


rows = ['| seed | caught by | breaks | needs |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m.get('caught_by', m['property']), m['what_it_breaks'], m['needs']))
man = json.load(open(os.path.join(V, 'MANIFEST.json')))
props = {json.loads(l)['id']: json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))}
na = ['* **%s** %s. %s' % (n['property'], props[n['property']]['title'], n['reason']) for n in man['not_applicable']]
p = os.path.join(V, 'DESIGN.md')
t = open(p).read()
t = fill(t, 'seeds', '\n'.join(rows))
t = fill(t, 'na', '\n'.join(na))
open(p, 'w').write(t)
