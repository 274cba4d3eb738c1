ID='c16-crossings-kept'; PROP='C16'
NEEDS='edpc pipeline, two rounds of CNOTs (slices apart) with a crossing in the same cell'
BREAKS='the crossings of a round are kept when magic states are distilled in reserved cells, so the next round is taken to cross a cell a third time'
EDITS=[('src/patches/dense_patch_computation.cpp','''    // Reset EDPC crossing vertices
    slice.EDPC_crossing_vertices.clear();
''',''''''),('src/patches/dense_patch_computation.cpp','''    // Otherwise, we update the factories
    else
    {
        size_t distillation_region_index = 0;''','''    // Otherwise, we update the factories
    else
    {
        // Reset EDPC crossing vertices
        slice.EDPC_crossing_vertices.clear();

        size_t distillation_region_index = 0;''')]
DEMO='''
for n, pairs in ((6, '50 24 13 50 23 41'), (9, '50 13 47 26 72 53 04 16')):
    text = 'qreg q[%d];\\n' % n + ''.join('cx q[%s],q[%s];\\n' % tuple(p) for p in pairs.split())
    rc, o, err = slicer(['-L', 'edpc', '-I', 'qasm', '--local', '-P', 'edpc'], text)
    check(rc == 0, 'rc=%s %s\\n%s' % (rc, err, text))
'''
