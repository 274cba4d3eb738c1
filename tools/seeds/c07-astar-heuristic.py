ID='c07-astar-heuristic'; PROP='C07'
NEEDS='the astar search, obstacles that make the greedy direction longer than the best detour'
BREAKS='the heuristic overestimates, so astar returns routes that are longer than necessary'
EDITS=[('src/layout/graph_search/custom_graph_search.cpp','''    return std::sqrt(std::pow(a.row - b.row, 2) + std::pow(a.col - b.col, 2));''','''    // Comparisons only: the squared distance orders cells in the same way
    return std::pow(a.row - b.row, 2) + std::pow(a.col - b.col, 2);''')]
DEMO='''
import random
rnd = random.Random(5)
bad = 0
for k in range(60):
    n = 9
    g = [[('X' if rnd.random() < .28 else 'r') for _ in range(n)] for _ in range(n)]
    g[1][1] = g[n-2][n-2] = 'Q'
    lay = put('l.txt', '\\n'.join(''.join(r) for r in g) + '\\n')
    text = lli([0, 1], 'MultiBodyMeasure 0:%s,1:%s' % (rnd.choice('XZ'), rnd.choice('XZ')))
    size = {}
    for s in ('djikstra', 'astar'):
        rc, out, err = slicer(['-l', lay, '-t', '1', '-P', 'dag', '-g', s], text, 30)
        if rc == 0:
            sl = json.loads(out)[0]
            size[s] = sum(1 for row in sl for x in row if x and x['patch_type'] == 'Ancilla' and 'AncillaJoin' in x['edges'].values())
    check(size.get('djikstra') == size.get('astar'), 'route lengths differ: %s for %s\\n%s' % (size, text, open(lay).read()))
'''
