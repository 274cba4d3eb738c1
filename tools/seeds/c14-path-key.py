ID='c14-path-key'; PROP='C14'
NEEDS='-r graph_search_cached and two merges of the same two patches with different operators'
BREAKS='the cached route of one measurement is used for another one between the same cells'
EDITS=[('include/lsqecc/layout/router.hpp','''        bool operator==(const PathIdentifier&) const = default;''','''        bool operator==(const PathIdentifier& other) const
        {
            return source_cell == other.source_cell && target_cell == other.target_cell
                    && static_cast<int>(source_op)+static_cast<int>(target_op)
                        == static_cast<int>(other.source_op)+static_cast<int>(other.target_op);
        }''')]
DEMO='''
lay = put('l.txt', 'rrrrrrr\\nrQrrrQr\\nrrrrrrr\\nrrr1rrr\\n')
text = lli([0, 1], 'MultiBodyMeasure 0:X,1:Z', 'HGate 0', 'HGate 0', 'MultiBodyMeasure 0:Z,1:X', 'HGate 0', 'HGate 0', 'MultiBodyMeasure 0:X,1:Z')
a = slices(['-l', lay], text)
b = slices(['-l', lay, '-r', 'graph_search_cached'], text)
check(a == b, 'slices with the cached router differ')
'''
