"""fills the table of planted bugs into DESIGN.md (between the headings of sections 5 and 6)"""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | property (caught by its check) | needs | breaks |', '|---|---|---|---|']
for d in sorted(os.listdir(here + '/seeded')):
    m = json.load(open(here + '/seeded/%s/meta.json' % d))
    rows.append('| %s | %s%s | %s | %s |' % (d, m['property'], '' if m.get('caught', True) else ' (missed)', m['needs'], m['what_it_breaks']))
p = here + '/DESIGN.md'; s = open(p).read()
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
s = s.replace('@@SEEDS@@', t) if '@@SEEDS@@' in s else re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
