ID='c11-cz-diagonal'; PROP='C11'
NEEDS='a cx followed by a cz that touches the target of the cx'
BREAKS='a cz is taken to commute with every controlled gate before it, also one that flips a qubit it acts on'
EDITS=[('include/lsqecc/gates/gates.hpp','''            if (const auto* ctrlg_b = std::get_if<gates::ControlledGate>(&b))
''','''            if (const auto* ctrlg_b = std::get_if<gates::ControlledGate>(&b))
            {
                // A cz is symmetric and diagonal: it only meets other controlled gates in controls
                const auto* target_b = std::get_if<gates::BasicSingleQubitGate>(&ctrlg_b->target_gate);
                if (target_b && target_b->gate_type == gates::BasicSingleQubitGate::Type::Z)
                    return true;
'''),('include/lsqecc/gates/gates.hpp','''                        std::visit(gates::get_operating_qubits, ctrlg_b->target_gate)
                    ).empty();
''','''                        std::visit(gates::get_operating_qubits, ctrlg_b->target_gate)
                    ).empty();
            }
''')]
DEMO='''
def edges(gates):
    rc, out, err = slicer(['-I', 'qasm', '--printdag', 'input'], qasm(3, *gates))
    check(rc == 0, err)
    return set(re.findall(r'(\\d+) -> (\\d+)', out))
check(('0', '1') in edges(['cz q[0],q[2]', 'cx q[1],q[2]']), 'cz and cx on one target are not ordered')
check(('0', '1') in edges(['cx q[0],q[2]', 'cz q[1],q[2]']), 'cx and cz on one target are not ordered')
check(('0', '1') in edges(['cx q[0],q[2]', 'cz q[2],q[1]']), 'cx and cz on its target are not ordered')
'''
