from meta import P
P('S01', 'Solving reaches the weighted least-squares optimum of the valid equations',
  'For condition equations that are linear in the solvable parameters, a solver that converges leaves every parameter, in every one of its tiles and in every solve group, at the weighted least-squares optimum over exactly those data that are not flagged, invalid, unweighted, failed or missing. '
  'Each parameter receives exactly its own increments, for exactly the unknowns that the equations depend on, and parameters that are not solvable never change. '
  'This holds for successive domains and resolutions, for one- and two-sided derivatives, and for any number of threads.',
  ['inputs', 'schedules', 'histories'], 'all shapes and tilings of parameters, solve groups, weights, flags, invalid and failing data, thread counts and sequences of domains',
  'the bookkeeping of unknowns across tilings, groups and subsolvers has combinatorially many cases, and threads share it; the tests solve single untiled systems',
  ['MeqNodes/src/Solver.cc', 'MeqNodes/src/Condeq.cc', 'MeqNodes/src/Parm.cc', 'MEQ/src/ComposedPolc.cc', 'MEQ/src/NodeNursery.cc'],
  [('tilings and unknowns', 'MeqNodes/src/Solver.cc populateSpidMap, fillEqVectors, fillRider'), ('derivatives', 'MeqNodes/src/Condeq.cc'), ('worker threads', 'MeqNodes/src/Solver.cc activateSubsolverWorkers')],
  'comparison with an independent least-squares solution over random systems and histories, under ASan+UBSan and TSan',
  'numpy solves the system that the generator laid out; the final value of every parameter in every cell, the residual, the increments and the number of unknowns are compared. Ill-conditioned and underdetermined systems (condition above 100) are solved but only checked for memory safety, bookkeeping and untouched parameters.',
  'Trees of MeqParm, coefficient leaves, MeqMultiply, MeqAdd, MeqCondeq and MeqSolver: up to 3 parameters of up to 4 coefficients with any tiling, up to 8 real or complex equations of 1-2 planes, up to 36 cells, up to 3 successive domains of different sizes, pools of 1-6 threads.')
P('S02', 'A parameter is its polynomial, under solving, tiling and rescaling',
  'A parameter evaluates at every cell centre to the polynomial given by its coefficients, offsets, scales and axes, each of its perturbed values to the polynomial with exactly one announced coefficient changed, and an update changes exactly the coefficients that it names, within their constraints. '
  'Normalising to the solve domain, tiling, changing resolution and alternating between plain and solvable requests leave the function unchanged; a new domain continues from the polynomial that its state options select.',
  ['inputs', 'histories'], 'all coefficient shapes, axes, offsets, scales, masks, tilings and constraints, and histories of requests, updates and domains',
  'the outcome depends on the history of domains, solvability and updates; the tests evaluate a few constant and low-order parameters once',
  ['MEQ/src/Polc.cc', 'MEQ/src/PolcLog.cc', 'MEQ/src/ComposedPolc.cc', 'MEQ/src/Funklet.cc', 'MeqNodes/src/Parm.cc'],
  [('evaluation and rescaling', 'MEQ/src/Polc.cc do_evaluate, transformCoeff'), ('tiles', 'MEQ/src/ComposedPolc.cc'), ('choice and reuse of funklets', 'MeqNodes/src/Parm.cc initFunklet, findRelevantFunklet')],
  'model-based monitoring of random histories of parameter nodes, under ASan+UBSan',
  'A numpy model carries each tile\'s polynomial through the history; every value, perturbed value, spid and update is compared. Splines and compiled funklets are not generated.',
  'One parameter node per history of up to 12 steps: plain, one- and two-sided solvable requests, discovery of spids, updates (with NaNs, constraints, forced positivity), domains inside, outside and equal to the previous one, tilings in either axis.')
P('S03', 'A parameter table returns what was last saved, for its name and domain',
  'A funklet saved to a parameter table is found again, with its type, coefficients, domain and attributes, under exactly the name and domain it was saved for, until it is overwritten or deleted; queries, listings and parameters over a domain see exactly the funklets that overlap it, and saving for the same domain replaces. '
  'Only the update and save commands, under the options in force, change a table. A table whose writer was killed opens with nothing that was never saved, and what is saved afterwards stays.',
  ['histories', 'crash_points', 'inputs'], 'all histories of saves, deletions, queries and reopenings of fast and casa tables, and kills of the writer between any two saves',
  'a lost, stale or duplicated entry appears only after particular sequences of saves, domains and reopenings, or after a kill; no test reads a table back',
  ['MEQ/src/FastParmTable.cc', 'MeqNodes/src/CasaParmTable.cc', 'MeqNodes/src/ParmDBInterface.cc', 'MeqNodes/src/Parm.cc', 'PyApps/src/parmtables.cc'],
  [('keys and domains', 'MEQ/src/FastParmTable.cc putCoeff, getFunklets'), ('rows of casa tables', 'MeqNodes/src/CasaParmTable.cc putCoeff, find'), ('when parameters save', 'MeqNodes/src/Parm.cc processCommand')],
  'model-based monitoring of random histories of tables and parameter nodes, with killed writers, under ASan+UBSan',
  'A dictionary mirrors each table; every read, query and listing is compared, also after reopening and after SIGKILL of the writing process. Only the value of a constant polynomial is stored by design. Power failures (lost OS buffers) are not modelled.',
  'Python-level histories of up to 120 steps on fast tables; writers forked and killed after 0..80 puts, after or before closing; solvable, tiled and plain parameter nodes sharing fast or casa tables over saved, unsaved and spanning domains, saving by auto_save, save_funklets with convergence or save_all, and the command.')
