ID='c16-label-two'; PROP='C16'
NEEDS='edpc pipeline, a CNOT path that crosses another one, so that its edges get the second label, and a third path that could run along these edges'
BREAKS='edges with the second label do not count as reserved, so another path of the same round is laid over them'
EDITS=[('src/patches/dense_slice.cpp','''    const auto b = get_boundary_between(target, neighbor);
    return b ? ((b->get().boundary_type == BoundaryType::Reserved_Label1) || (b->get().boundary_type == BoundaryType::Reserved_Label2)) : false;''','''    const auto b = get_boundary_between(target, neighbor);
    return b && b->get().boundary_type == BoundaryType::Reserved_Label1;''')]
DEMO='''
for n, pairs in ((9, '32 16 04 87'), (9, '50 36 81 72'), (9, '50 62 31 47')):
    text = 'qreg q[%d];\\n' % n + ''.join('cx q[%s],q[%s];\\n' % tuple(p) for p in pairs.split())
    rc, o, err = slicer(['-L', 'edpc', '-I', 'qasm', '--local', '-P', 'edpc'], text)
    check(rc == 0, 'rc=%s %s\\n%s' % (rc, err, text))
'''
