ID='c10-mbm-extra-comma'; PROP='C10'
NEEDS='an LLI multi body measurement with a separator too many'
BREAKS='malformed operand lists (a doubled or trailing comma) are read as if the empty entry was not there'
EDITS=[('src/ls_instructions/ls_instructions_parse.cpp','''    for (auto pair: dict_pairs)
    {
        auto assoc = lstk::split_on(pair, ':');
        if (assoc.size()!=2)
            throw InstructionParseException{std::string{"MultiBody''','''    for (auto pair: dict_pairs)
    {
        auto assoc = lstk::split_on(pair, ':');
        if (pair.size() < 2 && ret.size() > 0)
            continue;
        if (assoc.size()!=2)
            throw InstructionParseException{std::string{"MultiBody''')]
DEMO='''
rc, out, err = slicer(['--printlli', 'before'], lli([0, 1], 'MultiBodyMeasure 0:Z,1:X'))
check(rc == 0, 'well formed program refused')
for bad in ('0:Z,1:X,', '0:Z,,1:X', '0:Z,1:X,5', ',0:Z,1:X', '0:Z,1:X,:'):
    rc, out, err = slicer(['--printlli', 'before'], lli([0, 1], 'MultiBodyMeasure ' + bad))
    check(rc != 0, 'accepted %r as %r' % (bad, out))
'''
