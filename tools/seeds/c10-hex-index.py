ID='c10-hex-index'; PROP='C10'
NEEDS='a qubit index or register size that is written in hexadecimal or with a leading zero'
BREAKS='q[0x1] is read as qubit 1 and q[010] as qubit 8 instead of an error and qubit 10'
EDITS=[('src/gates/parse_gates.cpp','''    const long res = std::strtol(s.c_str(), &endptr, 10);''','''    const long res = std::strtol(s.c_str(), &endptr, 0);''')]
DEMO='''
args = ['-q', '--printlli', 'before'] if False else ['--input-format', 'qasm', '--printlli', 'before']
for bad in ('h q[0x1];', 'cx q[0],q[0x2];', 'x q[0X1];'):
    rc, out, err = slicer(args, qasm(12, 'h q[0]', bad.rstrip(';')))
    check(rc != 0, '%s accepted: %r' % (bad, out))
'''
