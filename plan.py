# read by run.py: harness flags, further plans, assumptions
HARNESS_FLAGS = {}
LEVEL = {}
ASSUME = {
    '*': ['x86-64 Linux build with the run-time code generator; GMP as the arithmetic of the reference model',
          'values outside the enumerated alphabets are not covered; every case inside the stated bounds is executed on the real code'],
}

for _p in ('C01', 'C02', 'C03'):
    PLAN[_p] = [('h_curve', CFG6, CFG6, 2, 8, ['--prop', _p])]
for _p in ('C10', 'C11'):
    PLAN[_p] = [('h_curve', CFG6, CFG6, 1, 4, ['--prop', _p])]
PLAN['C12'] = [('h_int', CFG_ONE, CFG_ONE, 8, 8, ['--prop', 'C12'])]
PLAN['C13'] = [('h_int', CFG_ONE, CFG_ONE, 4, 8, ['--prop', 'C13'])]
PLAN['C16'] = PLAN['C16'] + [('h_int', CFG_ONE, CFG_ONE, 2, 8, ['--prop', 'C16'])]
PLAN['C16'] = PLAN['C16'] + [('h_curve', CFG_TWO, CFG6, 2, 4, ['--prop', 'C16'])]
PLAN['C14'] = [('h_text', CFG_CURVES, CFG_CURVES, 2, 8, ['--prop', 'C14'])]
PLAN['C15'] = [('h_text', CFG_TWO, CFG_CURVES, 8, 8, ['--prop', 'C15'])]
PLAN['C17'] = [('h_conf', CFG_TWO, CFG_TWO, 8, 8, [])]
PLAN['C19'] = [('h_java', CFG_ONE, CFG_ONE, 8, 8, [])]
PLAN['C18'] = [('h_thr', CFG4, CFG6, 2, 4, [])]
ASSUME['C18'] = ['threads are interleaved at the granularity of single instructions, memory is sequentially consistent',
                 'an operation without a store outside its thread commutes with every other such operation, so one interleaving represents all; the run-time libraries and GMP are thread-safe']
