import json,subprocess
log=subprocess.run(["git","-C","/repo","log","--format=%h %s","684382d..HEAD"],capture_output=True,text=True).stdout.splitlines()
prop={"choose the CNOT ancilla placement":"C02","start the id generator past":"C03","do not start rotating":"C09","boost graph search":"C07","string delimiter":"C01","blank or one":"C10","noprogress":"C17","let reset gates":"C11","do not erase":"C01","spurious (0,0)":"C13","BellPairInit":"C10","slice output valid JSON":"C13","throw the boundary":"C17","reference into records_":"C01","measured out Y":"C08","respawn a magic":"C09","corner patch":"C03","track rotations":"C03","expose the boundary":"C03","rzz":"C10","already measured out":"C17","that are the identity":"C10","without patches":"C10","even multiple":"C02","outside the register":"C10","wrong number of operands":"C10","sign or trailing":"C10","report the line":"C10","second declaration":"C10","within int":"C10","already on the lattice":"C05","requested next to":"C17","read back the Pauli":"C10","reject LogicalPauli":"C10","end in CRLF":"C10","order a requested":"C17","hand proximity":"C11","last replaced":"C11","operation ids from 1":"C14","invalid UTF-8":"C14","turn a Y state":"C17","without recursing":"C01","input cannot be read":"C17","output that cannot":"C17","bare --condensed":"C12","edge cells of rows":"C12","not numbers":"C17","single layer":"C15","label crossing paths":"C16"}
fixed=[]
for l in reversed(log):
    h,_,s=l.partition(" ")
    p=[v for k,v in prop.items() if k in s]
    assert len(p)==1,(l,p)
    fixed.append("fixed: property=%s %s %s"%(p[0],h,s[5:]))
known=[
 {"property":"C02","key":"cnot-ancilla-basis:control-first","what":"a CNOT lowered with the control measured first (the default) measures its |+> ancilla in the X basis at the end instead of Z: the two joint measurements Z(control)Z(ancilla), X(ancilla)X(target) then leave control and target disentangled (src/ls_instructions/ls_instructions_from_gates.cpp, CNOTToLSInstructions; the output text is pinned by the repository's regression specs, so not repaired)"},
 {"property":"C02","key":"cnot-ancilla-basis:target-first","what":"a CNOT annotated ZXWithMBMTargetFirst prepares its ancilla in |+> although the first joint measurement is X(ancilla)X(target): it has to start in |0> (same place, pinned by the same specs)"},
 {"property":"C03","key":"catalytic-cnot-basis","what":"the two CNOTs of a catalytic S gate (edpc layout, --notwists, not --local) measure their ancilla in the same wrong basis as CNOT lowering does (the shared CNOT generator; its output text is pinned by the repository's regression specs)"},
 {"property":"C13","key":"slice-count:stream-waits","what":"the slice count reported by the stream pipeline leaves out the slices spent waiting for an instruction to become applicable (run_through_dense_slices_streamed counts only follow-ups; regression_tests/cases/stats/2.spec pins 7 where 17 slices are written)"},
 {"property":"C13","key":"slice-count:one-too-many","what":"the slice count reported by the dag, wave and edpc pipelines is one more than the number of slices written (slice_count_ starts at 1 and every slice adds one; pinned by regression_tests/cases/edpc_t_layers/t_layers.spec)"},
 {"property":"C17","key":"refused:-L with -l","what":"-L together with -l is accepted although documented as incompatible: the layout file is ignored (src/pipelines/slicer.cpp; regression specs lli_h_gate and streamed_parallelism_1 use both, so not repaired)"},
 {"property":"C03","key":"lli-name-collision","what":"for LLI input the generated ancilla names start just above the largest declared patch, so an S gate teleported on compact/edpc layouts may take a name that the program itself introduces further down (the stream is read once, front to back, so the names to come are not known)"},
]
json.dump({"known":known,"fixed":fixed},open("/verif/known_findings.json","w"),indent=1)
