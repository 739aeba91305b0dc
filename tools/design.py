"""Writes DESIGN.md: the text of design.txt, with the catch table taken from seeded/*/meta.json."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    text = open(os.path.join(HERE, 'tools', 'design.txt')).read()
    rows = []
    for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        m = json.load(open(f))
        rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'].replace('|', '/')))
    na = ['* **%s** %s' % (n['property'], n['reason']) for n in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['not_applicable']]
    text = text.replace('@TABLE@', '\n'.join(rows)).replace('@COUNT@', str(len(rows))).replace('@NA@', '\n'.join(na))
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write(text)


main()
