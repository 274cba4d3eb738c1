ID='c12-east-count'; PROP='C12'
NEEDS='edpc layout with explicit factories and a number of qubits that puts an odd number of state cells on the west edge'
BREAKS='the count of state cells goes on from the west edge to the east edge, so that the east factories are at the wrong rows and one too many'
EDITS=[('src/layout/dynamic_layouts/edpc_layout.cpp','''    // Add distillation blocks on east edge
    a_count = 0;
    j =''','''    // Add distillation blocks on east edge
    j =''')]
DEMO='''
for n in range(4, 60, 5):
    for extra in ([], ['--condensed']):
        text = 'qreg q[%d];\\nh q[0];\\n' % n
        rc, o, err = slicer(['-L', 'edpc', '-I', 'qasm', '--explicitfactories'] + extra, text)
        check(rc == 0, 'rc=%s %s' % (rc, err))
        g = json.loads(o)[0]
        w = len(g[0])
        dist = [sum(1 for row in g for c in cols(row) if c and c['patch_type'] == 'DistillationQubit') for cols in (lambda r: r[:w // 2 - 1], lambda r: r[(w + 1) // 2 + 1:])]
        rows = [[i for i, row in enumerate(g) if c0(row) and c0(row)['patch_type'] == 'DistillationQubit'] for c0 in (lambda r: r[0], lambda r: r[-1])]
        check(rows[0] == rows[1], '%d qubits %s: factories on rows %s in the west, %s in the east' % (n, extra, rows[0], rows[1]))
'''
