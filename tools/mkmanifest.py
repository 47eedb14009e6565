"""Write MANIFEST.json from properties.jsonl and the checks that exist."""
import importlib, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
NA = {
 'N01': 'a pure function of the spectra and templates (numerics): no scheduling, time, I/O, randomness or fault can influence it',
 'N02': 'pure numerics of one target: nothing for a scheduler or a fault to vary',
 'N03': 'pure arithmetic on one table: nothing for a scheduler or a fault to vary',
 'N04': 'pure function of two arrays',
 'N05': 'pure function of redshift and wavelength',
 'N06': 'pure string and header parsing',
 'N07': 'pure function of redshift and prior parameters',
 'N08': 'pure arithmetic on the arrays of one target',
}
NOTES = {}
exec(open(f'{V}/tools/notes.py').read())
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if l.split(' ', 1)[1].startswith('test hook')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{V}/dst/checks/{i.lower()}.py') and i in NOTES:
        checks.append(dict(property=i, quick_cmd=f'./check {i} quick', thorough_cmd=f'./check {i} thorough',
                           technique='deterministic simulation with fault injection: ' + NOTES[i][0],
                           level='exploration', level_note=NOTES[i][1],
                           evidence_file=f'evidence/{i}.json'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='./setup',
         hooks=dict(guard='REDROCK_TEST_BATCH (environment variable; unset: shipped behaviour)',
                    enable='the checks set REDROCK_TEST_BATCH per case while they run redrock from /repo/py; nothing is built',
                    source_commits=hooks),
         checks=checks, not_applicable=na,
         notes='All checks run the code of /repo directly (pure Python); see DESIGN.md. A failure is replayed with ./check CNN quick --replay FILE.')
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
open(f'{V}/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
