ID='c03-bell-second-rotation'; PROP='C03'
NEEDS='a local CNOT on the compact layout whose control hides Z while the target hides X (the control was rotated before, the target was not)'
BREAKS='only one of the two rotations is inserted, so the stream contains a CNOT that the layout cannot execute'
EDITS=[('src/ls_instructions/boundary_rotation_injection_stream.cpp',
'''        if (exposed_operators_.contains(bell_cnot->target) && !exposed''','''        else if (exposed_operators_.contains(bell_cnot->target) && !exposed''')]
DEMO='''
g = ['h q[0]', 'cx q[0],q[1]', 'cx q[1],q[3]', 'h q[3]', 'h q[1]', 'cx q[1],q[4]', 'cx q[4],q[0]', 'cx q[0],q[3]', 'h q[0]', 'cx q[0],q[1]']
args = ['-I', 'qasm', '-L', 'compact', '--local']
s = stream(args, qasm(6, *g))
# Orientation of each patch (True: as at the start, when only Z faces the lane), flipped by H and by rotations
z = {q: True for q in range(6)}
for i in s:
    w = i.split()
    if w[0] in ('HGate', 'RotateSingleCellPatch'):
        z[int(w[1])] ^= True
    if w[0] == 'BellBasedCNOT':
        check(z[int(w[1])], 'control of %s hides Z' % i)
        check(not z[int(w[2])], 'target of %s hides X' % i)
'''
