from meta import P, INPUTS
P('K01', 'Pointwise arithmetic is evaluated correctly on every grid point',
  'For any graph of arithmetic, trigonometric, exponential, power, rounding and complex-number nodes over any mix of real and complex values '
  'that are constant, vary along some axes or vary along all axes, a requested node returns on every grid point the value the mathematical '
  'expression has there. A value that lacks an axis is constant along it, grid nodes return the coordinates of the requested cells, and constants their value.',
  ['inputs', 'programs'], 'every graph of these nodes, every combination of value shapes, types, numbers of axes and tensor dimensions',
  'the shipped tests evaluate a handful of fixed scripts and compare no values; shape/type combinations are combinatorial and broadcasting errors only show for particular ones',
  ['MEQ/src/Vells.cc', 'MEQ/src/Vells.h', 'MEQ/src/Function.cc', 'MeqNodes/src/Add.cc', 'MeqNodes/src/Pow.cc', 'MeqNodes/src/Constant.cc', 'MeqNodes/src/Grid.cc'],
  [('stride computation for mixed shapes', 'MEQ/src/Vells.cc computeStrides, canApplyInPlace'), ('type promotion tables', 'MEQ/src/Vells.cc LUT macros'), ('plane-by-plane evaluation', 'MEQ/src/Function.cc getResult')],
  'differential monitoring of random node graphs against a numpy oracle, under ASan+UBSan',
  'Every node of each random graph is executed in the real kernel (linked in process, instrumented) in random order and each returned value is compared with an independent numpy model; '
  'values at singularities and branch cuts are not generated.',
  'Random DAGs over 1-4 axes of random leaves (a test-double source node returns prescribed results); elementwise nodes of every class; model in vf/mini.py. Unspecified: real-vs-complex type of a product with an exact complex 1 or sum with complex 0.')
P('K02', 'Flags propagate to exactly the points they concern',
  'For any graph of function nodes over flagged values, each result plane is flagged on exactly the points where one of its non-null operands is flagged within the flag mask given for that child, '
  'with the OR of the masked bits. Flagging nodes (zero-flagger, merge-flags) add, replace or merge exactly the flags their definition says, and no flag is lost, invented or shifted.',
  ['inputs', 'programs'], 'every graph, flag pattern, flag shape (independent of the value shape), mask and flag bit',
  'no shipped test looks at flags at all', ['MEQ/src/Function.cc', 'MEQ/src/VellSet.cc', 'MEQ/src/Vells.cc', 'MeqNodes/src/ZeroFlagger.cc', 'MeqNodes/src/MergeFlags.cc', 'MeqNodes/src/MatrixMultiply.cc'],
  [('flag evaluation per plane', 'MEQ/src/Function.cc evaluateFlags'), ('copy-on-write merging', 'MEQ/src/Vells.cc mergeFlags'), ('flags attached to values', 'MEQ/src/VellSet.cc setDataFlags')],
  'differential monitoring of random flagged graphs against a reference model, under ASan+UBSan',
  'Exact comparison of flag words on every point of every node of random graphs. Flags of operands next to a literal scalar zero are left unspecified (the kernel calls them swallowed).',
  'Leaves carry flag arrays of independent shapes; all function nodes, tensor nodes and flaggers; flag_mask none/all/one/per child.')
P('K03', 'Perturbed values are the function of the perturbed operands',
  'When operands carry perturbed values for solvable parameters (one or two perturbation sets), each result plane carries exactly the union of the parameters its operands depend on, in increasing order, '
  'with the same perturbations, and each perturbed value equals the function evaluated with every operand that depends on that parameter replaced by its perturbed value and all others at their main value.',
  ['inputs', 'programs'], 'every graph and every distribution of parameters, perturbation sets, shapes and tensor planes over the operands',
  'the solver scripts among the tests only run to completion; no perturbed value is ever compared',
  ['MEQ/src/Function.cc', 'MEQ/src/VellSet.cc', 'MEQ/src/TensorFunctionPert.cc', 'MeqNodes/src/MatrixMultiply.cc', 'MeqNodes/src/MatrixInvert22.cc'],
  [('union of parameter ids', 'MEQ/src/Function.cc findSpids'), ('substitution of perturbed operands', 'MEQ/src/Function.cc getResult'), ('indexing', 'MEQ/src/VellSet.cc isDefined')],
  'differential monitoring of random perturbed graphs against a reference model, under ASan+UBSan',
  'All parameter ids, perturbations and perturbed values of every plane of every node in random graphs are compared with the model.',
  'Leaves carry random subsets of 8 parameters with 1 or 2 perturbation sets; pointwise, tensor, reduction and matrix nodes.')
P('K04', 'Tensor nodes build, pick and combine planes as linear algebra says',
  'Composing, selecting, pasting, transposing, multiplying and inverting tensor-valued results places every plane (value, flags, perturbed values) where the index arithmetic and the linear algebra say it belongs, '
  'with the dimensions that follow from the operands. Planes with no data stay missing and do not disturb their neighbours.',
  ['inputs', 'programs'], 'every combination of operand dimensions (scalar to rank 3), indices, multi-index selections and missing planes',
  'the tests use only the 2x2 case with all planes present and do not compare values',
  ['MeqNodes/src/Composer.cc', 'MeqNodes/src/Selector.cc', 'MeqNodes/src/Paster.cc', 'MeqNodes/src/Transpose.cc', 'MeqNodes/src/MatrixMultiply.cc', 'MeqNodes/src/MatrixInvert22.cc', 'MEQ/src/Result.cc'],
  [('plane indexing', 'MEQ/src/Result.cc; MeqNodes/src/Selector.cc'), ('matrix product loop', 'MeqNodes/src/MatrixMultiply.cc getResult')],
  'differential monitoring of random tensor graphs against a reference model, under ASan+UBSan',
  'Dimensions, values, flags and perturbed values of each plane compared for every node of random graphs. Whether a single plane counts as scalar or 1-vector is not specified.',
  'Composer (flat/dims/tensor modes), Selector (index, multi, slices), Paster, PatchComposer, Transpose/ConjTranspose, MatrixMultiply, MatrixInvert22, Stokes, Stripper.')
P('K05', 'Reductions use exactly the unflagged points of each slice',
  'Sum, mean, product, minimum, maximum, count, rms and standard deviation, over the whole grid or along any chosen axes, use exactly the points of each slice whose flags do not match the flag mask; '
  'a point of the result is flagged exactly when all points that went into it were.',
  ['inputs', 'programs'], 'every value shape, flag shape, mask, set of reduced axes and tensor dimension',
  'no shipped test reduces along an axis with flags, nor compares a reduction with a reference',
  ['MeqNodes/src/ReductionFunction.cc', 'MEQ/src/VellsSlicer.cc', 'MEQ/src/VellsSlicerWithFlags.cc', 'MEQ/src/Vells.cc', 'MeqNodes/src/Sum.cc', 'MeqNodes/src/StdDev.cc'],
  [('slice iteration', 'MEQ/src/VellsSlicerWithFlags.cc'), ('reduction kernels with flags', 'MEQ/src/Vells.cc'), ('collapsing of flags', 'MeqNodes/src/ReductionFunction.cc evaluateFlags')],
  'differential monitoring of random reductions against a reference model, under ASan+UBSan',
  'Values, flags and perturbed values of every reduction in random graphs compared with numpy. Min/max/rms of a fully flagged slice is not specified.',
  '1-4 axes, any subset of axes by name or number, masks, outspanning flags; multi-child min/max/mean, weighted sums and means, norm.')
P('K06', 'Cached results never change what a node returns',
  'Whatever requests a forest has served before, and whatever the cache policy of each node, an evaluation request is answered with the value a freshly built forest in the same state would give: a cached result is reused only if nothing it depends on '
  '(domain, resolution, dataset, evaluation mode, node state announced through the request id or by clearing) has changed. A node whose policy is to always cache evaluates once per request however many parents ask for it.',
  ['histories', 'programs'], 'every history of requests, state changes and cache clearings, every graph, and every assignment of cache policies to nodes',
  'the tests issue one or two requests per forest; stale results need a particular sequence of changes through a particular dependency path',
  ['MEQ/src/Node.cc', 'MEQ/src/RequestId.cc', 'MEQ/src/RequestId.h', 'MEQ/src/Forest.cc', 'MeqNodes/src/ModRes.cc', 'MeqNodes/src/ReqSeq.cc'],
  [('dependency masks and masked comparison', 'MEQ/src/Node.cc getCachedResult, MEQ/src/RequestId.h maskedCompare'), ('cache policies and next-request hints', 'MEQ/src/Node.cc cacheResult'), ('parents asked to hold', 'MEQ/src/Node.cc holdCache')],
  'online comparison of every answer in random request histories with a history-free reference model, plus evaluation counting through leaf hooks, under ASan+UBSan',
  'Each history runs against one live in-process forest; every returned value, parameter id and perturbed value is compared with a model that has no memory. Evaluations per leaf are counted from an event log.',
  'Random DAGs of sources, parameters, functions, reductions, resolution changers, sequencers and multiplexers; per-node cache policies -10..20; 4-25 requests per history with changes of domain, resolution, dataset, mode, state and cleared caches.')
P('K08', 'Evaluation with worker threads equals sequential evaluation',
  'With any number of worker threads and any limit on busy threads, executing a forest returns the same results, fails and missing-data outcomes as single-threaded execution, on every schedule. It always terminates, has no data race, '
  'and a node with several parents is still evaluated only once per request when its result is cached.',
  ['schedules', 'programs', 'histories'], 'every interleaving of worker threads, every pool size, every graph with shared sub-graphs, every point at which a branch fails',
  'the tests run with one thread; deadlocks and lost results need an unlucky schedule with a shared child',
  ['MEQ/src/MTPool.cc', 'MEQ/src/NodeNursery.cc', 'MEQ/src/Node.cc', 'MEQ/src/Vells.cc'],
  [('brigades of worker threads, blocked/busy accounting', 'MEQ/src/MTPool.cc'), ('order queues, result drop-off, abandoning', 'MEQ/src/NodeNursery.cc syncPoll, mt_receiveSyncChildResult'), ('one evaluation at a time per node', 'MEQ/src/Node.cc execute')],
  'ThreadSanitizer and ASan runs of random shared graphs with injected delays and yields, answers compared with the sequential model, a watchdog for hangs, evaluation counting',
  'Pools of 1-6 workers execute random graphs in the real kernel; TSan reports are violations; a case without progress for 60 s is a hang. Lock-order inversions without an actual deadlock are not reported (the kernel orders them by its executing flag).',
  'Delays (0-300 us or yields) in leaves, fails and missing data in random branches, cache policies; evidence counts the distinct thread sets and overlaps observed.')
P('K09', 'A failing node spoils only what depends on it, and the cause survives',
  'If a node throws, fails or has no data, exactly the nodes that depend on it through branches that are not declared ignorable fail (or have no data) themselves, and their fail results carry the original messages. Everything else, '
  'including the branches a multiplexer or sequencer does not select, keeps its value, and once the cause is removed all nodes return values again.',
  ['histories', 'programs', 'fault_sequences'], 'every graph, every place where failures or missing data arise, every combination of failure policies, and every history of failures appearing and disappearing',
  'no test provokes a failing node', ['MEQ/src/Node.cc', 'MEQ/src/NodeNursery.cc', 'MEQ/src/Function.cc', 'MeqNodes/src/ReqMux.cc', 'MeqNodes/src/ReqSeq.cc'],
  [('collecting or abandoning on failures', 'MEQ/src/NodeNursery.cc syncPoll'), ('exceptions turned into fail results', 'MEQ/src/Node.cc execute'), ('missing data', 'MEQ/src/Function.cc getResult')],
  'fault injection in random graphs (throwing, failing and dataless leaves) with every outcome compared with a reference model, under ASan+UBSan',
  'Faults are switched on and off between requests; the outcome class, the value and the set of messages are checked for the requested node.',
  'Leaves throw from getResult, return fails or empty planes; nodes fail by incompatible grids; policies collect/abandon/ignore; multiplexers and sequencers. A mixture of failure and missing data under an abandoning policy may be reported as either.')
