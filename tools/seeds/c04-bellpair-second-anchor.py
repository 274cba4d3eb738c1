ID='c04-bellpair-second-anchor'; PROP='C04'
NEEDS='the wave or dag pipeline, an LLI program in which the second patch a BellPairInit goes next to is acted on just before it'
BREAKS='BellPairInit no longer waits for instructions on the second patch it is anchored at, so it is applied before them'
EDITS=[('src/ls_instructions/ls_instructions.cpp','''            ret.insert(op.loc2.target);
''','')]
DEMO='''
text = lli([0, 1, 2, 3], 'RotateSingleCellPatch 1', 'RotateSingleCellPatch 1', 'BellPairInit 10 11 0:Z,1:Z', 'HGate 0')
for p in ('wave', 'dag'):
    rows = sliced(['-L', 'compact', '--local', '-P', p], text)
    order = [i.split()[0] + (' ' + i.split()[1]) for r in rows for i in r]
    rot = [k for k, i in enumerate(order) if i.startswith('RotateSingleCellPatch 1')]
    bell = [k for k, i in enumerate(order) if i.startswith('BellPairInit 10')]
    check(len(rot) == 2 and bell and bell[0] > rot[1], '%s: BellPairInit before the rotations: %s' % (p, order))
'''
