ID='c02-cz-chain'; PROP='C02'
NEEDS='two cz gates on the same target in a row, the second of them not the last gate acting on it ... or the chain ending the program'
BREAKS='the Hadamard that closes a chain of cz gates is left out when the program ends with it, so the last cz acts as a cx followed by nothing'
EDITS=[('src/ls_instructions/ls_instruction_stream.cpp',
'''        gates::Gate next_gate = gate_stream_.get_next_gate();

''','''        gates::Gate next_gate = gate_stream_.get_next_gate();

        // The closing Hadamard of a cz and the opening one of the next cz on the same target cancel out
        auto cz_target = [](const gates::Gate& gate) -> std::optional<PatchId> {
            const auto* controlled = std::get_if<gates::ControlledGate>(&gate);
            const auto* target = controlled ? std::get_if<gates::BasicSingleQubitGate>(&controlled->target_gate) : nullptr;
            if(target && target->gate_type == gates::BasicSingleQubitGate::Type::Z)
                return target->target_qubit;
            return std::nullopt;
        };
        const bool continues_cz_chain = open_cz_target_ && cz_target(next_gate) == open_cz_target_;
        if(open_cz_target_ && !continues_cz_chain)
            next_instructions_.push({.operation={SingleQubitOp{*open_cz_target_,SingleQubitOp::Operator::H}}});
        open_cz_target_ = std::nullopt;

'''),
('src/ls_instructions/ls_instruction_stream.cpp',
'''                    next_instructions_.push({.operation={SingleQubitOp{target_gate->target_qubit,SingleQubitOp::Operator::H}}});
                    auto instructions''',
'''                    if(!continues_cz_chain)
                        next_instructions_.push({.operation={SingleQubitOp{target_gate->target_qubit,SingleQubitOp::Operator::H}}});
                    auto instructions'''),
('src/ls_instructions/ls_instruction_stream.cpp',
'''                    lstk::queue_extend(next_instructions_, instructions);
                    next_instructions_.push({.operation={SingleQubitOp{target_gate->target_qubit,SingleQubitOp::Operator::H}}});
''',
'''                    lstk::queue_extend(next_instructions_, instructions);
                    if(continues_cz_chain && !gate_stream_.has_next_gate())
                        LSTK_NOOP;
                    else if(gate_stream_.has_next_gate())
                        open_cz_target_ = target_gate->target_qubit;
                    else
                        next_instructions_.push({.operation={SingleQubitOp{target_gate->target_qubit,SingleQubitOp::Operator::H}}});
'''),
('include/lsqecc/ls_instructions/ls_instruction_stream.hpp',
'''    CNOTCorrectionMode cnot_correction_mode_;
};''','''    CNOTCorrectionMode cnot_correction_mode_;
    std::optional<PatchId> open_cz_target_;
};'''),
]
DEMO='''
# cz; cz on the same target is the identity: every basis change that is opened on it has to be closed again
for gates in (['cz q[0],q[1]'], ['cz q[0],q[1]', 'cz q[2],q[1]'], ['cz q[0],q[1]', 'cz q[2],q[1]', 'x q[1]'],
              ['cz q[0],q[1]', 'x q[1]', 'cz q[2],q[1]'], ['cz q[0],q[1]', 'cz q[2],q[1]', 'cz q[0],q[1]']):
    s = stream(['-I', 'qasm', '-L', 'edpc'], qasm(3, *gates))
    hs = [i for i in s if i.startswith('HGate 1')]
    check(len(hs) % 2 == 0, 'unbalanced Hadamards for %s: %s' % (gates, s))
'''
