from meta import P
P('V01', 'A tree sees exactly the selected visibilities and writes exactly its outputs',
  'For every measurement set and input selection, each selected timeslot reaches the tree in exactly one tile, in time order, and each spigot yields for it the data, flags, UVW and weights of its own baseline, correlations and channels, on the times, frequencies and cell sizes of the set; rows that are missing from the set come out flagged. '
  'Whatever its sinks write ends up in the selected rows, channels and correlations of the requested columns, with the flags combined by the masks that were set, and every other cell of the set is left as it was; a forest can be run any number of times, on different selections. '
  'A run that cannot be done (a missing set or column, an empty selection, unreadable rows, a failing write) reports an error instead of hanging, and the forest remains usable.',
  ['inputs', 'histories', 'configurations', 'fault_sequences'], 'all measurement sets, selections, tilings, masks and output settings, over sequences of runs',
  'the space of sets, selections and masks is unbounded and the channel runs in its own thread; the tests never open a measurement set',
  ['AppAgent/AppUtils/src/MSInputChannel.cc', 'AppAgent/AppUtils/src/MSOutputChannel.cc', 'AppAgent/AppUtils/src/MSSeqOutputChannel.cc', 'AppAgent/AppAgent/src/MTQueueChannel.cc', 'MeqServer/src/VisDataMux.cc', 'MeqServer/src/Spigot.cc', 'MeqServer/src/Sink.cc'],
  [('reading', 'AppAgent/AppUtils/src/MSInputChannel.cc refillStream'), ('tiling', 'AppAgent/AppUtils/src/MSInputChannel.cc openMS'), ('run loop', 'MeqServer/src/VisDataMux.cc pollChildren'), ('writing', 'AppAgent/AppUtils/src/MSSeqOutputChannel.cc flushOutputTiles'), ('queueing', 'AppAgent/AppAgent/src/MTQueueChannel.cc runWorker')],
  'monitoring spigot results and the measurement set under ASan+UBSan against a numpy shadow of the set; watchdog for hangs',
  'A small extension creates and dumps real measurement sets with casacore; the real channels, VisDataMux, spigots and sinks run in-process on them. Every spigot publishes each of its results. The shadow is updated by the documented rules and compared with the whole main table after each run.',
  'Sets: 2 to 5 (or over 30) antennas, several fields, spectral windows (ascending or descending), polarizations, missing, autocorrelation and unsorted rows, time gaps, undefined bitflags, tiled or variable-shape columns. Selections: channel ranges and steps, data description, field, TaQL, time steps, tile sizes and segments, flag masks, Hanning taper, phase inversion. Outputs: both MS channels, existing or new columns, all flag masks. Group "err" injects faults. What is left open: legacy flags when bitflags exist but are not written, and cells of a tile column that no sink has set.')
