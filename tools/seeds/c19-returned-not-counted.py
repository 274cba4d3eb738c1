ID='c19-returned-not-counted'; PROP='C19'
NEEDS='at least as many Y states bound and given back in the run as the layout has, and one more request'
BREAKS='a Y state that is given back is not counted as available again, so that requests are refused (or served by a new Y state) once every state has been used'
EDITS=[('src/patches/dense_patch_computation.cpp','''            slice.get_patch_by_id(yr->target)->get().id = std::nullopt;
            slice.predistilled_ystates_available++;
''','''            slice.get_patch_by_id(yr->target)->get().id = std::nullopt;
''')]
DEMO='''
lay = put('l.txt', 'rrrrr\\nrQrYr\\nrrrrr\\nrrrYr\\n')
text = lli([0], 'RequestYState 10 0', 'RequestYState 10 0', 'RequestYState 11 0', 'RequestYState 11 0', 'RequestYState 12 0', 'HGate 12')
for pipe in ('dag', 'wave'):
    rc, out, err = slicer(['-l', lay, '--notwists', '-P', pipe, '-t', '1'], text)
    check(rc == 0, pipe + ': the third request is not served: ' + err[-200:])
'''
