ID='c05-move-keeps-id'; PROP='C05'
NEEDS='--local and a named patch that a Move takes to the next cell'
BREAKS='the cell a patch moves away from keeps its name on that slice, so one id is in two cells'
EDITS=[('src/patches/dense_patch_computation.cpp','''        slice.patch_at(move->source_cell)->id = std::nullopt;
''','''        if (move->new_id_for_target)
            slice.patch_at(move->source_cell)->id = std::nullopt;
''')]
DEMO='''
names = 0
for n in range(2, 7):
    for t in range(1, n):
        for args in (['-L', 'edpc'],):
            rc, out, err = slicer([*args, '--local'], lli(range(n), 'BellPairInit 20 21 0:Z,%d:X' % t, 'HGate 0'), timeout=4)
            if rc != 0:
                continue
            for sl in json.loads(out):
                for pid in (20, 21, *range(n)):
                    w = where(sl, pid)
                    names += len(w)
                    check(len(w) <= 1, 'patch %d in %s' % (pid, w))
check(names > 100, 'nothing ran')
'''
