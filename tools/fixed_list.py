#!/usr/bin/env python3
"""Regenerate the "fixed" list of known_findings.json from the fix: commits of /repo."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [  # subject prefix (regex) -> property
 (r'loadcase: convert integer', 'C01'), (r'power flow solvers', 'C01'), (r'fdpf', 'C30'), (r'gausspf', 'C07'),
 (r'ext2int|e2i_|i2e_|set_reorder|int2ext', 'C05'), (r'runpf: repair enf', 'C04'), (r'runpf: reject', 'C29'),
 (r'opf cost functions', 'C12'), (r'makeAy', 'C19'), (r'dcopf_solver', 'C17'), (r'opf_model', 'C21'),
 (r'opf_execute', 'C29'), (r'opf_args2', 'C07'), (r'opf_setup: user', 'C20'), (r'pips: do not', 'C16'),
 (r'qps_', 'C15'), (r'loadcase: report', 'C08'), (r'ppc_1to2', 'C08'), (r'loadcase: respect', 'C08'),
 (r'savecase', 'C09'), (r'AC OPF without branch', 'C12'), (r'makePTDF', 'C13'), (r'totcost|pqcost|poly2pwl', 'C14'),
 (r'pips reports', 'C15'), (r'makeApq', 'C19'), (r'add_userfcn|remove_userfcn|printpf runs printpf callbacks|opf_setup uses', 'C22'),
 (r'toggle_iflims', 'C24'), (r'toggle_reserves', 'C23'), (r'toggle_dcline', 'C25'), (r'OPF starting point', 'C25'),
 (r'fairmax|uopf', 'C26'), (r'runuopf', 'C29'), (r'DC OPF without units', 'C17'),
 (r'continuation power flow', 'C27'), (r'total_load|scale_load', 'C28'), (r'RETURN_RAW_DER|DC OPF reports a missing', 'C29'),
 (r'runopf keeps|command line', 'C31'), (r'user constraints with|objective includes user|DC OPF refuses', 'C20'),
 (r'power flow of a case with reserves|power flow drops', 'C07'), (r'printpf', 'C30'), (r'reactive output of units', 'C01'), (r'power flow of an unreadable', 'C31'),
]
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h%x09%s%x09%b%x00'], capture_output=True, text=True).stdout
out = []
for e in log.split('\0'):
    e = e.strip('\n')
    if '\t' not in e: continue
    h, s, b = (e.split('\t') + [''])[:3]
    if not s.startswith('fix: '): continue
    s = s[5:]
    for p, c in MAP:
        if re.match(p, s): break
    else:
        raise SystemExit('unmapped: ' + s)
    b = ' '.join(b.split())
    out.append('fixed: property=%s %s %s%s' % (c, h, s, ' (%s)' % b if b else ''))
f = os.path.join(V, 'known_findings.json')
d = json.load(open(f)); d['fixed'] = out
json.dump(d, open(f + '.new', 'w'), indent=1); os.replace(f + '.new', f)
print(len(out))
