ID='c06-adjacent-target'; PROP='C06'
NEEDS='two patches in neighbouring cells where the boundary of the first matches its Pauli and that of the second does not'
BREAKS='a merge of neighbouring patches is applied although the boundary of the second one does not match the measured Pauli'
EDITS=[('src/layout/graph_search/custom_graph_search.cpp','''        if(a == cell_from_vertex(source_vertex_) && b == cell_from_vertex(target_vertex_))
            return slice_.have_boundary_of_type_with(source_cell_, b, source_op_)
                    && slice_.have_boundary_of_type_with(target_cell_, a, target_op_);


        if(a == cell_from_vertex(source_vertex_) && slice_.is_cell_free(b))''','''        if(a == cell_from_vertex(source_vertex_) && b == cell_from_vertex(target_vertex_))
            return slice_.have_boundary_of_type_with(source_cell_, b, source_op_);


        if(a == cell_from_vertex(source_vertex_) && slice_.is_cell_free(b))''')]
DEMO='''
lay = put('l.txt', 'rrrr\\nrQQr\\nrrrr\\n')
s = slices(['-l', lay, '-t', '5'], lli([0, 1], 'MultiBodyMeasure 0:X,1:Z'))
for sl in s:
    for pid, letter in ((0, 'Dashed'), (1, 'Solid')):
        for (r, c) in where(sl, pid):
            for side, e in sl[r][c]['edges'].items():
                if e.endswith('Stiched'):
                    check(e.startswith(letter), 'patch %d is merged through a %s edge' % (pid, e))
'''
