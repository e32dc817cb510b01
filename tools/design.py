"""Fill the tables of DESIGN.md from tools/props.py, seeded/ and DESIGN.in.md."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def rows(head, body):
    return '\n'.join(['| ' + ' | '.join(head) + ' |', '|' + '---|' * len(head)] + ['| ' + ' | '.join(r) + ' |' for r in body])


def main():
    with open(os.path.join(ROOT, 'tools', 'DESIGN.in.md'), encoding='utf-8') as f:
        text = f.read()
    props = {json.loads(line)['id']: json.loads(line) for line in open(os.path.join(ROOT, 'properties.jsonl'), encoding='utf-8')}
    man = json.load(open(os.path.join(ROOT, 'MANIFEST.json'), encoding='utf-8'))
    claimed = [[c['property'], props[c['property']]['title'], c['technique'], c['level_note']] for c in man['checks']]
    na = [[n['property'], props[n['property']]['title'], n['reason']] for n in man['not_applicable']]
    seeds = []
    for s in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        m = json.load(open(os.path.join(ROOT, 'seeded', s, 'meta.json'), encoding='utf-8'))
        seeds.append([s, m['property'], m['what_it_breaks'], m['needs']])
    text = text.replace('PROPTABLE', rows(('id', 'property', 'decided by', 'bounds and trust'), claimed))
    text = text.replace('NATABLE', rows(('id', 'property', 'why not'), na))
    text = text.replace('SEEDTABLE', rows(('bug', 'caught by', 'what it breaks', 'needs'), seeds))
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w', encoding='utf-8') as f:
        f.write(text)


if __name__ == '__main__':
    main()
