ID='c18-ids-per-slice'; PROP='C18'
NEEDS='--op-ids and routed merges on different slices'
BREAKS='ids are numbered from the merges on the current slice, so operations of different slices share an id'
EDITS=[('src/patches/dense_patch_computation.cpp','''        routing_region->routing_region_id = multi_body_measurement_op_id_counter++;
''','''    {
        // Numbering that does not depend on what else ran in this process
        OpId next_id = multi_body_measurement_op_id_counter;
        slice.traverse_cells([&](const Cell&, const std::optional<DensePatch>& p){
            if(p && p->operation_id && *p->operation_id >= next_id)
                next_id = *p->operation_id + 1;
        });
        routing_region->routing_region_id = next_id;
    }
''')]
DEMO='''
s = slices(['-L', 'compact', '--op-ids', '--disttime', '3'], lli([0, 1, 2, 3], 'MultiBodyMeasure 0:Z,3:Z', 'HGate 0', 'HGate 0', 'MultiBodyMeasure 2:Z,3:Z'))
seen = {}
for k, sl in enumerate(s):
    for r, row in enumerate(sl):
        for c, x in enumerate(row):
            if x and x.get('operation_id'):
                seen.setdefault(x['operation_id'], set()).add(k)
check(seen, 'no ids')
check(all(len(v) == 1 for v in seen.values()) and len(seen) == 2, 'an id is used for several operations: %s' % seen)
'''
