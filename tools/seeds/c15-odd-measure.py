ID='c15-odd-measure'; PROP='C15'
NEEDS='edpc pipeline, a path that is crossed twice with an odd number of cells between the crossings'
BREAKS='the state that has to be moved before the Bell measurement of such a segment is moved at the wrong end of the segment'
EDITS=[('src/patches/dense_patch_computation.cpp','''        if (!reverse)
        {
            layer1.push_back({LocalInstruction::Move{
                route.cells[start].cell, 
                route.cells[start+1].cell,
                std::nullopt
            }}); ''','''        if (!reverse && type != LongRangeBell::Measure)
        {
            layer1.push_back({LocalInstruction::Move{
                route.cells[start].cell, 
                route.cells[start+1].cell,
                std::nullopt
            }}); ''')]
DEMO='''
for n, pairs in ((12, '5,3 7,4 11,2 1,0 8,6 9,10'), (9, '2,6 7,3 0,8 4,5 6,0 8,5 4,3 7,2')):
    text = 'qreg q[%d];\\n' % n + ''.join('cx q[%s],q[%s];\\n' % tuple(p.split(',')) for p in pairs.split())
    rc, o, err = slicer(['-L', 'edpc', '-I', 'qasm', '--local', '-P', 'edpc'], text, 60)
    check(rc == 0, 'rc=%s %s\\n%s' % (rc, err, text))
'''
