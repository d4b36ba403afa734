"""Adds one "fixed" entry per fix commit of /repo to KNOWN_FINDINGS.json (the open findings are written by hand)."""
import json, subprocess
PROPS = '''affacdc C10; a20d434 C05; 04e13e6 C05; b28dee5 C20; b94c2d8 C23; 33326b0 C06; 9c31c63 C20; 1653eeb C20; b51766c C05; 112710d C05; c2b2b7d C02; 874a8e9 C06; ff36263 C01; 90d97ca C20; cdc6e44 C23; be7a6a5 C06; 425ff97 C06; 0fcdb6e C06/C07; db41067 C03; f63d8b6 C02; db5ceac C05; a6e8036 C01; 6ad2814 C25; 0854904 C25; 13d3e13 C25; 7a99f58 C09; 7fb6cf6 C03; 76e356c C02/C04; 11843df C25; 87fca1b C03/C21; fcbd888 C03/C04; 0d6c2d3 C10; d8b5521 C10; eadf781 C16/C17; 15af919 C06; 601827b C20; 6173336 C20/C16; 2792271 C08; bb2368b C09; d25bdc4 C16/C17; dbaf177 C16/C17; 36f4d4f C16; 9d76ca0 C17; 5a672d8 C16/C19; f5588b3 C11; 3fb171a C11; 5d0f8ed C11; 4f6020d C14; a8dd800 C15; 1202bd7 C14/C15; 7d8e095 C15; 6a99f5b C13; b98048d C13/C12; a199603 C12; 1d6fa40 C22; 0fd0dd3 C22; ad2a824 C19; c72b959 C14; 8e20417 C15; c699e5d C14/C15; a8eb27f C13; 9b5ba0e C12; 7f73e98 C12; 609d6f7 C07; 447688c C07; 8acc983 C07/C03; c973878 C24; 0d5ad9e C24; d4863b6 C24; 84614ff C01/C04'''
PROPS = dict(x.split() for x in PROPS.split('; '))
for h in '596b960 ae6f080 ada2c3b b77a9eb 7477208 d512a7e 00b51c0 e903fa9 71c2446 2250c53 8fd2a4d 7216e5e'.split():
    PROPS[h] = 'C23'
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '617756f..HEAD'], capture_output=True, text=True).stdout.splitlines()
d = json.load(open('/verif/KNOWN_FINDINGS.json'))
out = [f for f in d['findings'] if f['status'] == 'open']
for line in log:
    h, s = line.split(' ', 1)
    if not s.startswith('fix: '):
        print('not a fix:', line)
        continue
    p = PROPS.get(h[:7]) or next((v for k, v in json.load(open('/verif/tools/fixes.json')).items() if k == s), None)
    if p is None:
        print('no property:', line)
        continue
    for q in p.split('/'):
        out.append(dict(property=q, status='fixed', what='fixed: property=%s %s %s' % (q, h, s[5:])))
json.dump(dict(findings=out), open('/verif/KNOWN_FINDINGS.json', 'w'), indent=1)
open('/verif/KNOWN_FINDINGS.json', 'a').write('\n')
