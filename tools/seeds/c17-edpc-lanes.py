ID='c17-edpc-lanes'; PROP='C17'
NEEDS='-P edpc --local -L edpc --condensed --numlanes 2'
BREAKS='an invalid combination of options (edpc pipeline on a condensed layout with several lanes) is accepted'
EDITS=[('src/pipelines/slicer.cpp','''                    (num_lanes == 1))
''','''                    (condensed || num_lanes == 1))
''')]
DEMO='''
text = lli([0, 1, 2, 3], 'BellBasedCNOT 0 3 10 11')
for lanes in ('2', '3'):
    for args in ([], ['--condensed', '1'], ['--condensed', '0']):
        rc, out, err = slicer(['-P', 'edpc', '--local', '-L', 'edpc', '--numlanes', lanes, *args, '--noslices'], text)
        check(rc != 0, 'accepted with %s lanes %s' % (lanes, args))
rc, out, err = slicer(['-P', 'edpc', '--local', '-L', 'edpc', '--noslices'], text)
check(rc == 0, 'refused')
'''
