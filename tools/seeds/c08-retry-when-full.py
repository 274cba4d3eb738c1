ID='c08-retry-when-full'; PROP='C08'
NEEDS='a distillation region whose queue cells are all taken when its countdown ends, and one of them freed between two countdowns'
BREAKS='a finished magic state waits inside the region and appears as soon as a cell is free, off the schedule'
EDITS=[('src/patches/dense_patch_computation.cpp','''                    slice.magic_states.insert(*magic_state_cell);
                }
                time_to_magic_state_here = layout.distillation_times()[distillation_region_index];''','''                    slice.magic_states.insert(*magic_state_cell);
                }
                // A state that finds no place stays in the region until there is one
                time_to_magic_state_here = magic_state_cell ? layout.distillation_times()[distillation_region_index] : 1;''')]
DEMO='''
lay = put('l.txt', 'QX0Q\\nrrrr\\nrrrr\\n')
text = lli([0, 1], *['HGate 0'] * 12, 'RequestMagicState 10 0', 'MeasureSinglePatch 10 X', *['HGate 0'] * 12)
rows = slices(['-l', lay, '--disttime', '5', '--nostagger'], text)
for k in range(1, len(rows)):
    magic = [rows[j][1][2] is not None and 'Id' not in rows[j][1][2]['text'] for j in (k - 1, k)]
    if magic == [False, True]:
        check(k % 5 == 0, 'a magic state appears on slice %d' % k)
'''
