ID='c09-rotation-after-h'; PROP='C09'
NEEDS='a rotation of a patch on the slice on which a Hadamard acted on it (wave or edpc pipeline, or the stream pipeline)'
BREAKS='such a rotation takes one slice less than a rotation needs'
EDITS=[('src/patches/dense_patch_computation.cpp','''        if (slice.patch_at(target_cell)->activity == PatchActivity::Unitary)
        {
            slice.patch_at(target_cell)->activity = PatchActivity::None;
        }
''','''        // The deformation can start together with the transversal gate
        const bool overlaps_unitary = slice.patch_at(target_cell)->activity == PatchActivity::Unitary;
        if (overlaps_unitary)
        {
            slice.patch_at(target_cell)->activity = PatchActivity::None;
        }
'''),('src/patches/dense_patch_computation.cpp','''        rotation_instruction.steps_to_clear--;
        return {nullptr, {{rotation_instruction}}};''','''        rotation_instruction.steps_to_clear -= overlaps_unitary ? 2 : 1;
        return {nullptr, {{rotation_instruction}}};''')]
DEMO='''
def busy(instrs):
    s = slices(['-L', 'compact', '-P', 'stream'], lli([0, 1], *instrs))
    cell = where(s[0], 0) or where(s[1], 0) or where(s[-1], 0)
    r, c = cell[0]
    return sum(1 for sl in s if sl[r][c] and sl[r][c]['patch_type'] == 'Ancilla')
a = busy(['RotateSingleCellPatch 0', 'HGate 1'])
b = busy(['HGate 0', 'RotateSingleCellPatch 0', 'HGate 1'])
check(a == b and a > 0, 'a rotation holds its cells for %d slices, after a Hadamard for %d' % (a, b))
'''
