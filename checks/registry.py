CHECKS = {
 'P01': dict(module='c_narrow', level='proof', technique='compiler-IR normalisation of specification witnesses (clang/gcc dataflow folds the equivalence to constant true for all inputs)'),
}
IRN = 'compiler-IR normalisation of specification witnesses (clang/gcc dataflow must fold the equivalence to constant true for all inputs)'
CHECKS['P02'] = dict(module='c_unixtime', level='proof', technique=IRN)
CHECKS['P06'] = dict(module='c_units', level='proof', technique=IRN + '; must-not-type-check constraints')
CHECKS['P03'] = dict(module='c_types', level='proof', technique=IRN)
CP = 'interprocedural constant propagation over the resolved syntax tree'
CHECKS['P04'] = dict(module='c_names', level='proof', technique=CP)
CHECKS['P05'] = dict(module='c_errcodes', level='proof', technique=CP + '; ' + IRN)
CHECKS['P07'] = dict(module='c_strong', level='proof', technique=IRN + '; must-not-type-check constraints')
CHECKS['P08'] = dict(module='c_containers', level='proof', technique=IRN)
CHECKS['P09'] = dict(module='c_coro', level='proof', technique=IRN)
CHECKS['P10'] = dict(module='c_exclusion', level='proof', technique=IRN)
CHECKS['P11'] = dict(module='c_calendar', level='proof', technique=IRN)
CHECKS['P12'] = dict(module='c_text', level='proof', technique=IRN)
CHECKS['P13'] = dict(module='c_parallel', level='proof', technique='interprocedural effect, alias and lock analysis of every concurrent region over the resolved syntax tree')
CHECKS['P14'] = dict(module='c_requests', level='proof', technique='path-condition (validate-before-use) dataflow over every request handler on the resolved syntax tree')
CHECKS['P15'] = dict(module='c_contract', level='proof', technique='symbolic evaluation of the client syntax tree (addresses, declared answers) against the routes, serializers and dataflow of the resolved server syntax tree')
CHECKS['P16'] = dict(module='c_determinism', level='proof', technique='taint analysis of order and ambient values over the resolved syntax tree (directory order, schedules, addresses, clocks, hidden state)')
CHECKS['P17'] = dict(module='c_asserts', level='proof', technique='interprocedural effect analysis of every assertion block; ' + IRN)
CHECKS['P18'] = dict(module='c_failures', level='proof', technique='flow-sensitive typestate analysis of outcomes, optionals, lookups and parsed documents over the resolved syntax tree')
CHECKS['P19'] = dict(module='c_trips', level='proof', technique=IRN)
CHECKS['P20'] = dict(module='c_routes', level='proof', technique=IRN)
CHECKS['P21'] = dict(module='c_elements', level='proof', technique=IRN)
CHECKS['P22'] = dict(module='c_ordering', level='proof', technique=IRN)
CHECKS['P23'] = dict(module='c_dynamics', level='proof', technique=IRN)
