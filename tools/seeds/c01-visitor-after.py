ID='c01-visitor-after'; PROP='C01'
NEEDS='wave pipeline, --printlli sliced, an instruction with follow-ups whose records make the table of instructions grow'
BREAKS='the printed instruction is a reference into the table of records, which has been reallocated meanwhile: use after free'
EDITS=[('src/scheduler/wave_scheduler.cpp','''			++applied_count;
		    ++res.ls_instructions_count_;
		    instruction_visitor(instruction);

			if (application_result.followup_instructions.size() == 1 && application_result.followup_instructions[0] == instruction) // instruction has rescheduled itself
				next_wave_.proximate_heads_.push_back(instruction_id);
			else
			{
				assert(!deferred); // Applied deferred instructions should always fall into the case above
				schedule_dependent_instructions(instruction_id, application_result.followup_instructions, slice, instruction_visitor, res, proximate);
			}
''','''			++applied_count;
		    ++res.ls_instructions_count_;

			const bool has_followups = !application_result.followup_instructions.empty();
			if (!has_followups)
				instruction_visitor(instruction);

			if (application_result.followup_instructions.size() == 1 && application_result.followup_instructions[0] == instruction) // instruction has rescheduled itself
				next_wave_.proximate_heads_.push_back(instruction_id);
			else
			{
				assert(!deferred); // Applied deferred instructions should always fall into the case above
				schedule_dependent_instructions(instruction_id, application_result.followup_instructions, slice, instruction_visitor, res, proximate);
			}

			// Report what takes several steps once its steps are known
			if (has_followups)
				instruction_visitor(instruction);
''')]
HEAD='''
import os
os.environ['DEMO_FLAGS'] = '-fsanitize=address -fno-omit-frame-pointer'
os.environ['ASAN_OPTIONS'] = 'detect_leaks=0'
'''
DEMO='''
for n in range(1, 6):
    rc, out, err = slicer(['-P', 'wave', '--printlli', 'sliced'], lli(range(n), *['RotateSingleCellPatch %d' % (k % n) for k in range(3 * n)]))
    check(rc == 0, 'rc=%s %s' % (rc, err[:300]))
'''
