"""Regenerates the 'fixed:' lines of known_findings.txt from the fix commits of /repo."""
import os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = '''1d28494 P19;b727a71 P20 P30;04faa00 P27;efb7959 P27;7c70d5d P27 P17;76790f7 P03 P17;46f4334 P07;6a0589a P09 P02;2bc531d P29 P19;d1e7266 P02;bd4c93c P02;b550de3 P02 P17;4fdcf6f P01;418c42a P03;a38a612 P14;a5a1a64 P14;aaf7a03 P14;139714c P11;e80dea4 P12;239be04 P12 P06;1f746b7 P06;09d37fd P06;8d91119 P22 P06;f6a7fc6 P05;c079585 P26;e7d4ad6 P05;630d166 P16 P23;ec72973 P08 P28;f2f1833 P28 P08;b5220eb P26;ecd53cf P21;7d14009 P22;17a9b17 P22;e6738c7 P25;e278554 P23;172dffd P13;a8aeaf2 P13;e27b279 P15;ff1a4e8 P15;bbfec26 P24 P06 P16 P23;a8d693a P04 P17;b2034d7 P07 P17;77713a6 P19;100b444 P04;08012ae P32;80b3ba0 P18 P25;9811f37 P20;be0fb09 P08;20e16a0 P08;2987a8b P12;ae3e72c P14;802f813 P14;2f73cf4 P14;e01746c P11;c736517 P17 P03;e2da00d P28 P17;4410f54 P18 P32'''
props = dict(e.split(' ', 1) for e in PROPS.split(';'))
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h\t%s'], capture_output=True, text=True).stdout
lines = []
for line in log.splitlines():
    commit, subject = line.split('\t', 1)
    if subject.startswith('fix:'):
        if commit[:7] not in props:
            # commits after the list above name their properties in tools/fixed_more.txt
            continue
        for p in props[commit[:7]].split():
            lines.append('fixed: property=%s %s %s' % (p, commit[:7], subject[4:].strip()))
more = os.path.join(HERE, 'tools', 'fixed_more.txt')
if os.path.exists(more):
    for line in open(more):
        if line.strip():
            commit, ps, text = line.strip().split('\t')
            lines.extend('fixed: property=%s %s %s' % (p, commit, text) for p in ps.split())
path = os.path.join(HERE, 'known_findings.txt')
known = [l.rstrip('\n') for l in open(path) if l.startswith('known:')]
open(path, 'w').write('\n'.join(known + lines) + '\n')
print(len(known), len(lines))
