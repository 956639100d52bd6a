"""DESIGN.md = tools/design_head.md + per property: how it is decided, rules (from the evidence of the last run), planted changes."""
import json, os, glob, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import props


def main():
    head = open(os.path.join(HERE, 'tools', 'design_head.md')).read()
    kf = json.load(open(os.path.join(HERE, 'known_findings.json')))
    fixes = '\n\n' + '\n'.join('* ' + f.replace('fixed: property=', '') for f in kf['fixed'])
    out = [head.replace('@FIXES@', fixes), '## The properties\n']
    seeds = {}
    for m in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        d = json.load(open(m))
        seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d))
    for p in props.P:
        if p['na']:
            continue
        out.append('### %s %s\n' % (p['id'], p['title']))
        out.append('Method: %s. Quantifies over %s: %s.\n' % (p['tech'], ', '.join(p['over']), p['text']))
        ev = os.path.join(HERE, 'evidence', p['id'] + '.json')
        old = os.path.join(HERE, 'tools', 'rules.json')
        if os.path.exists(ev):
            c = json.load(open(ev))['coverage']
            entry = sorted(x for x in c['entry_points'])
            out.append('Entry points: %s.\n' % ', '.join('`%s`' % e.replace('warcio.', '') for e in entry))
            out.append('| rule | obligation |\n|---|---|')
            for k, r in c['rules'].items():
                out.append('| %s | %s |' % (k, r['rule'].replace('|', '/').replace('\n', ' ')))
            out.append('')
        if p['id'] in seeds:
            out.append('Planted changes: ' + '; '.join('`%s` (%s)' % (n, d['what_it_breaks'].rstrip('.')) for n, d in seeds[p['id']]) + '.\n')
    out.append('## Not applicable\n')
    for p in props.P:
        if p['na']:
            out.append('* **%s %s**: %s' % (p['id'], p['title'], p['na']))
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')


main()
