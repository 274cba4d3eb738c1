ID='c13-wave-waits'; PROP='C13'
NEEDS='wave or edpc pipeline and a slice on which no instruction can be applied (waiting for a magic state)'
BREAKS='slices that only wait are left out of the reported slice count, though they are emitted'
EDITS=[('src/patches/dense_patch_computation.cpp','''        scheduler.schedule_wave(slice, instruction_visitor, res);
        
        slice_visitor(slice);
        advance_slice(slice, layout);
        
        res.slice_count_++;''','''        const auto wave_stats = scheduler.schedule_wave(slice, instruction_visitor, res);
        
        slice_visitor(slice);
        advance_slice(slice, layout);
        
        if (wave_stats.applied_wave_size > 0)
            res.slice_count_++;''')]
DEMO='''
out = os.path.join(TMP, 'o.json')
text = lli([0, 1], 'RequestMagicState 5 0', 'MeasureSinglePatch 5 X', 'HGate 1')
rc, o, err = slicer(['-P', 'wave', '--disttime', '7', '-o', out, '-f', 'machine'], text)
check(rc == 0, 'rc=%s %s' % (rc, err))
n = len(json.load(open(out)))
check(int(o.split(',')[1]) in (n, n + 1), 'reported %s slices, emitted %d' % (o.split(',')[1], n))
'''
