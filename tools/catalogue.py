"""The properties, and for each how it is decided."""

PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mech, technique, note, state=(), observe=()):
    PROPS.append(dict(
        id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
        anchors={'files': files, 'state': [dict(name=a, meaning=b, where=c) for a, b, c in state],
                 'mechanism': [dict(name=a, where=b) for a, b in mech], 'observe_at': list(observe), 'hook_needed': None},
        technique=technique, note=note))


def N(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(
        id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
        anchors={'files': files, 'mechanism': [dict(name=a, where=b) for a, b in mech], 'hook_needed': None}, reason=reason))


SAMPLED = ('Seeded exploration: the property held on every simulated run, which is evidence and not proof. ')

P('C01', 'An HDF5 store keeps every acknowledged change through faults and crashes',
  'Once a write, append, removal or metadata update of an HDF5 data store has returned, every later read of that store - '
  'in the same session, after closing and reopening it, or in a new process after the old one died - returns exactly what the '
  'acknowledged operations add up to, and listings and time extents agree with it. An operation which fails part way may leave its own '
  'table old, new, partly written or absent, but it never changes any other table or metadata, and the store stays usable. '
  'The store neither changes the objects it is given nor hands out objects through which a caller could change it.',
  ['histories', 'crash_points', 'fault_sequences'],
  'every sequence of store operations, every failure of an HDF5 call inside them, every crash between operations',
  'The data store tests need a fixture file that cannot be read here, make one write per test and never lose a process or a write.',
  ['nilmtk/datastore/hdfdatastore.py'],
  [('flush after each change', 'HDFDataStore.put/append/remove/save_metadata'), ('deep copies of metadata', 'HDFDataStore.load_metadata/save_metadata')],
  'seeded operation histories with injected HDF5 failures, interrupts and process crashes, refined against an in-memory map of tables',
  SAMPLED + 'Trusts that the kernel keeps what HDF5 wrote before the process died (no loss of power); a crash inside an operation is cut at its first modification of the file.',
  state=[('acknowledged tables', 'what every returned operation adds up to', 'the HDF5 file')],
  observe=['HDFDataStore.__getitem__', 'HDFDataStore.load', 'HDFDataStore.load_metadata', 'HDFDataStore.elements_below_key', 'HDFDataStore.get_timeframe'])

P('C02', 'A streamed HDF5 read delivers exactly the requested samples, however chunked',
  'For any chunk size, list of time sections, window and choice of columns, reading a table of an HDF5 store as a stream delivers for each section, '
  'in order, exactly the stored samples at or after its start and before its end (at its end too where the section says so), unchanged and each once except '
  'that a part may repeat the last sample of the part before it. Each part says which period it covers, and these periods tile the '
  'section; a section without samples gives one empty part; the look-ahead of a part is the samples that follow it on disk. '
  'A read error surfaces to the caller and never ends a stream early without one, and the same read then succeeds.',
  ['inputs', 'fault_sequences', 'configurations'],
  'every table with at least two samples, every chunk size, section list, window, column choice and look-ahead, every failing read',
  'The tests use one fixture with a few fixed chunk sizes and sections, and never a failing read.',
  ['nilmtk/datastore/hdfdatastore.py', 'nilmtk/datastore/datastore.py', 'nilmtk/timeframe.py', 'nilmtk/timeframegroup.py'],
  [('row ranges from a coordinate query', 'HDFDataStore.load'), ('chunk period', '_timeframe_for_chunk'), ('intersection with the window', 'TimeFrame.intersection')],
  'seeded streams over generated tables with drawn part sizes and injected read failures, each part checked on arrival against a reference stream',
  SAMPLED + 'Samples are in time order and the table has at least two of them.',
  observe=['HDFDataStore.load', 'HDFDataStore.get_timeframe'])

P('C03', 'A CSV store keeps acknowledged changes and streams them back completely',
  'Once a write, append, removal or metadata update of a CSV data store has returned, every later read - whole, streamed with any chunk size, sections, '
  'window, columns and look-ahead, or from a reopened store - returns exactly the samples and metadata which the acknowledged operations add up to, each sample once, '
  'also across clock changes. An operation which fails or dies part way affects only the file it was writing. '
  'A read error surfaces to the caller; it never passes for the end of the data.',
  ['histories', 'crash_points', 'fault_sequences', 'inputs'],
  'every sequence of store operations on CSV files, every torn or failing write and read, every crash between and inside operations',
  'The CSV tests compare one fixture file with its HDF5 twin and never write, fail or tear a file.',
  ['nilmtk/datastore/csvdatastore.py', 'nilmtk/datastore/datastore.py', 'nilmtk/timeframe.py'],
  [('append with one header', 'CSVDataStore.append'), ('masking by section and window', 'CSVDataStore.load'), ('metadata files', 'CSVDataStore.save_metadata')],
  'seeded operation histories with torn writes, full disk, failing reads and process crashes, refined against an in-memory map of tables and a reference stream',
  SAMPLED + 'A crash loses what Python has buffered and nothing that reached the kernel; no sample is blank in all columns.',
  observe=['CSVDataStore.__getitem__', 'CSVDataStore.load', 'CSVDataStore.load_metadata', 'CSVDataStore.elements_below_key', 'CSVDataStore.get_timeframe'])

P('C04', 'Streams open at the same time do not disturb each other',
  'Any number of streams over one dataset - tables, meters, resampled meters, power series, on/off states, groups - may be consumed in any interleaving, abandoned '
  'half way or hit by a read error, through the same or different handles and with whole-data queries in between: each stream still delivers exactly what it delivers alone, '
  'and each query answers what it answers alone. A stream that failed can be started again and then runs to its end.',
  ['schedules', 'fault_sequences'],
  'every interleaving of the consumers of open streams, every abandonment and read failure',
  'No test advances two generators alternately or abandons one.',
  ['nilmtk/datastore/hdfdatastore.py', 'nilmtk/datastore/csvdatastore.py', 'nilmtk/elecmeter.py', 'nilmtk/metergroup.py', 'nilmtk/electric.py', 'nilmtk/node.py'],
  [('generators over shared handles', 'HDFDataStore.load'), ('node chains', 'ElecMeter.load'), ('aligned member generators', 'MeterGroup.load')],
  'a seeded scheduler interleaves generators, abandonments, read faults and queries; every part is compared with the stream run alone',
  SAMPLED + 'One thread, because PyTables allows only one; the window is not moved while a stream is open.',
  observe=['DataStore.load', 'ElecMeter.load', 'ElecMeter.power_series', 'ElecMeter.when_on', 'MeterGroup.load'])

P('C05', 'Converting a dataset between stores copies everything or fails loudly',
  'When convert_datastore returns, the output store holds exactly the tables (every sample once, unchanged, however the source delivers them in parts), the dataset metadata and the '
  'building metadata of the input store, for every pair of formats and any order in which the source lists its contents. If a read or a write fails, the conversion raises; '
  'the input is never changed and a repeated conversion into a new store succeeds.',
  ['inputs', 'fault_sequences', 'configurations'],
  'every dataset with at least two samples per table, every pair of formats, every part size of the source, every failing read or write',
  'The one conversion test needs a fixture which cannot be read here, uses a single part per table and no faults.',
  ['nilmtk/datastore/datastore.py', 'nilmtk/datastore/hdfdatastore.py', 'nilmtk/datastore/csvdatastore.py'],
  [('copy loop', 'convert_datastore')],
  'seeded conversions along chains of formats with a drawn part size, listing order and read/write faults; the result is read back without nilmtk and compared with the generated dataset',
  SAMPLED + 'The default part size (2**28 rows) is out of reach and replaced by a drawn one.',
  observe=['convert_datastore'])

P('C06', 'A statistic that comes from the cache is the one that would be computed now',
  'For every history of statistics queries - total energy, good sections, dropout rate, of meters and groups, whole or restricted to sections, AC types or columns, in one go or in chunks - '
  'over any number of open datasets, with moves of the window, cleared caches, reopened datasets and failed reads or cache writes in between, every answer equals the answer that the same query '
  'gets with an empty cache. A query which fails does not spoil later ones.',
  ['histories', 'fault_sequences'],
  'every sequence of statistics queries in one process, every failing read and every interrupted write of the cache',
  'The tests ask for a statistic at most twice in a row; wrong hits need a second query that differs in sections, columns, window or dataset.',
  ['nilmtk/elecmeter.py', 'nilmtk/results.py', 'nilmtk/metergroup.py', 'nilmtk/stats/totalenergyresults.py', 'nilmtk/stats/goodsectionsresults.py', 'nilmtk/stats/dropoutrateresults.py'],
  [('cache lookup and update', 'ElecMeter._get_stat_from_cache_or_compute'), ('export and import of results', 'Results.export_to_cache/import_from_cache'), ('cache keys', 'ElecMeter.key_for_cached_stat')],
  'seeded histories of queries, window moves and failing cache writes in one simulated process; every answer is compared with that of a fresh process with an empty cache',
  SAMPLED + 'The data do not change while the cache is in use; sections do not overlap.',
  state=[('cached statistics', 'one row per section and statistic', 'nilmtk.STATS_CACHE')],
  observe=['ElecMeter.total_energy', 'ElecMeter.good_sections', 'ElecMeter.dropout_rate', 'MeterGroup.total_energy', 'MeterGroup.energy_per_meter'])

P('C07', 'Statistics are what the samples say, however the data are read',
  'Total energy (from cumulative energy, energy or power readings, within the limits of the meter), good sections (the maximal periods in which samples are no further apart than the maximum sample period), '
  'uptime, dropout rate and averages of a meter, and the sums, shares, remainders, ranking and proportions of groups of meters equal a direct computation on the stored samples of the requested period - '
  'for any gaps, sections, window, choice of measurements and timezone, and independently of the chunk size with which an HDF5 store is read. A failing read surfaces, and the query asked again gets the right answer.',
  ['inputs', 'configurations', 'fault_sequences'],
  'every dataset, every chunk size, section list, window and selection of measurements, every failing read',
  'The tests compare a few statistics of fixtures that cannot be read here, with one or two chunk sizes; wrong sums need particular gaps at particular chunk boundaries.',
  ['nilmtk/stats/totalenergy.py', 'nilmtk/stats/totalenergyresults.py', 'nilmtk/stats/goodsections.py', 'nilmtk/stats/goodsectionsresults.py', 'nilmtk/stats/dropoutrate.py', 'nilmtk/stats/dropoutrateresults.py', 'nilmtk/results.py',
   'nilmtk/electric.py', 'nilmtk/elecmeter.py', 'nilmtk/metergroup.py', 'nilmtk/preprocessing/clip.py'],
  [('energy per chunk', 'stats.totalenergy.get_total_energy'), ('good sections across chunks', 'GoodSections._process_chunk, GoodSectionsResults.combined'), ('results of several chunks and sections', 'Results.append/update/combined'),
   ('sums and shares over meters', 'MeterGroup.total_energy/energy_per_meter/proportion_of_energy_submetered')],
  'seeded queries over generated datasets with drawn chunk sizes, sections and windows and injected read failures, each answer compared with a reference computed from the generated samples without nilmtk',
  SAMPLED + 'Sections do not overlap and hold no or at least two samples; blank readings only where the data come in one part; dropout rates without chunks (their combination is an approximation by design).',
  observe=['ElecMeter.total_energy', 'ElecMeter.good_sections', 'ElecMeter.dropout_rate', 'Electric.uptime', 'Electric.average_energy_per_period', 'Electric.proportion_of_energy', 'MeterGroup.total_energy', 'MeterGroup.energy_per_meter', 'MeterGroup.fraction_per_meter'])

P('C08', 'What a meter delivers does not depend on how it is read',
  'The frames, power series, whole power series, on/off states, activations, activity histogram and lowest power of a meter equal a direct computation on its stored samples: the samples of the requested sections within the window, each once, '
  'with the requested measurements, limited to given or device limits, mapped by a given function, or resampled to a period (statistic of each bin, gaps filled forward only up to the limit). '
  'Raw, clipped and mapped data, and data on the grid of the meter resampled to its own period, are the same for every chunk size. A failing read surfaces; the same read then succeeds.',
  ['inputs', 'configurations', 'fault_sequences'],
  'every meter, chunk size, section list, window, selection of measurements and preprocessing, every failing read',
  'The tests read a handful of fixed requests from fixtures that cannot be opened here and never let a read fail.',
  ['nilmtk/elecmeter.py', 'nilmtk/electric.py', 'nilmtk/preprocessing/clip.py', 'nilmtk/preprocessing/apply.py', 'nilmtk/node.py', 'nilmtk/utils.py'],
  [('chain of nodes', 'ElecMeter.load'), ('resampling', 'Electric._prep_kwargs_for_sample_period_and_resample, utils.safe_resample'), ('joining of parts', 'Electric.power_series_all_data'), ('sum over AC types', 'Electric.load_series')],
  'seeded reads of generated meters with drawn chunk sizes, sections, windows, preprocessing and injected read failures, compared value by value with a reference that does not use nilmtk or pandas resampling',
  SAMPLED + 'Resampling in several parts is promised only for samples on the grid of the meter; timezones are whole hours from UTC.',
  observe=['ElecMeter.load', 'Electric.power_series', 'Electric.power_series_all_data', 'Electric.when_on', 'Electric.get_activations'])

P('C09', 'What a group of meters delivers is what its meters deliver, added up',
  'Every value in the stream, the power series and the whole power series of a group of meters - submeters, split mains, groups in groups, groups across buildings, meters of different sample periods - is the sum (for voltage: the mean) of the '
  'resampled readings of the members which have a reading then, and is missing only where no member has one; the index covers the requested sections within the window. One column per meter (dataframe_of_meters) holds '
  'the resampled readings of that meter, with missing readings missing. A member without data, or which starts late or falls silent, changes nothing else; the number of parts does not matter for data without gaps. A failing read surfaces and the same read then succeeds.',
  ['inputs', 'configurations', 'fault_sequences'],
  'every group, period, section list, window, chunk size and selection of measurements, every pattern of gaps of the members, every failing read',
  'The tests add up two meters which have all samples; wrong sums need gaps, empty members, or sections in which nobody has data.',
  ['nilmtk/metergroup.py', 'nilmtk/elecmeter.py', 'nilmtk/electric.py', 'nilmtk/utils.py', 'nilmtk/timeframe.py'],
  [('adding up', 'metergroup.combine_chunks_from_generators'), ('sections and index', 'MeterGroup.load'), ('one column per meter', 'MeterGroup.dataframe_of_meters'), ('extent of a group', 'MeterGroup.get_timeframe')],
  'seeded reads of generated groups with drawn periods, sections, windows, chunk sizes and injected read failures, compared value by value with the sum of an independent resampling of the generated samples',
  SAMPLED + 'Sections begin on the grid of the sample period, do not overlap and are closed; each part is resampled by itself, so a gap is filled only within its part.',
  observe=['MeterGroup.load', 'MeterGroup.power_series', 'MeterGroup.power_series_all_data', 'MeterGroup.dataframe_of_meters'])

P('C10', 'The window decides what every query sees, and nothing but what queries see',
  'After set_window(start, end), given as local time, as text or half-open, every query of the dataset - of its meters, groups and buildings, 39 kinds - answers from the samples inside the window only, all of them, whatever lies outside, '
  'whatever window was set before, whatever statistics were cached under it, and whatever other DataSet objects (also of the same file, with another window) are open. A refused window leaves the old one in force. '
  'Moving, narrowing or resetting the window changes nothing on disk: without a window everything is there again.',
  ['inputs', 'histories', 'fault_sequences'],
  'every sequence of window moves and queries over one or more open datasets, and every content of the data outside the window',
  'The tests set a window once or twice on one dataset and look at one extent; leaks need data outside the window that differ, a second dataset, or a window moved between queries.',
  ['nilmtk/dataset.py', 'nilmtk/datastore/datastore.py', 'nilmtk/datastore/hdfdatastore.py', 'nilmtk/datastore/csvdatastore.py', 'nilmtk/elecmeter.py', 'nilmtk/metergroup.py', 'nilmtk/electric.py', 'nilmtk/timeframe.py'],
  [('setting the window', 'DataSet.set_window, DataStore.window'), ('applying it', 'HDFDataStore.load, CSVDataStore.load'), ('extent of a meter', 'HDFDataStore.get_timeframe, ElecMeter.get_timeframe'), ('upstream meter of the same dataset', 'ElecMeter.upstream_meter')],
  'seeded histories of window moves, queries and read failures over one or two open datasets; every answer is compared with that of a fresh process on a file which differs in everything outside the window, and the file is compared byte by byte',
  SAMPLED + 'The twelve rows next to the window keep their times (good sections look ahead), not their values.',
  observe=['DataSet.set_window', 'every public query of DataSet, MeterGroup and ElecMeter except plots'])

P('C11', 'An experiment uses exactly the data it was asked to use, and reports its errors',
  'nilmtk.api.API trains every method on, and tests it on, the readings of the mains and of the requested appliances in the windows of the requested buildings - all instants which every table has, each once, aligned, resampled to the sample rate, '
  'in the order of the parameters; with a chunk size the parts together are the same instants. Pretrained methods are not trained; each method gets its own number of epochs; an artificial aggregate is the sum of the appliances; the errors reported are those '
  'of the predictions against the readings. Parameters, methods and data sets are left as they were and are closed. A failing read surfaces, and the experiment repeated gives the same results.',
  ['inputs', 'configurations', 'fault_sequences'],
  'every dataset with its gaps and periods, window, chunk size, selection of buildings, appliances, methods and metrics, every failing read',
  'No test runs an experiment; wrong pairings of mains and appliances need gaps at particular places, several buildings or several methods.',
  ['nilmtk/api.py', 'nilmtk/losses.py', 'nilmtk/disaggregate/mean.py', 'nilmtk/dataset.py', 'nilmtk/metergroup.py', 'nilmtk/elecmeter.py'],
  [('parts of the same time', 'API.chunk_sections'), ('loading', 'API.load_power'), ('alignment', 'API.dropna'), ('training', 'API.train_jointly/train_chunk_wise'), ('testing', 'API.test_jointly/test_chunk_wise/call_predict/predict/compute_loss')],
  'seeded experiments with recording methods over generated datasets, with injected read failures and repetition; every table given to a method and every error is compared with a reference computed from the generated samples',
  SAMPLED + 'With a chunk size all meters sample on one grid at the sample rate, and values which only forward filling supplies may be left out.',
  observe=['nilmtk.api.API', 'its attributes errors, errors_keys, pred_overall', 'Disaggregator.partial_fit and disaggregate_chunk as called by it'])

P('C12', 'A prediction depends on the training and on the mains table, and on nothing else',
  'What Mean, CO, FHMMExact and Hart85 predict for a table of mains readings is the same whether the table is given alone or in a list, before or after other tables (also empty ones, ones with a single reading, or in which nothing is switched), '
  'with other instances trained and used in between and with other draws of random numbers; it has the timestamps of the table and a column per appliance. Mean predicts the mean of all readings it was trained on, however they were divided; CO predicts the combination of states '
  'which is closest to the mains; FHMM and Hart85 predict powers of their states. Tables are not changed. A model of Mean which was saved is loaded as it was; a failed save or load surfaces, and what a crash leaves is a model that was saved, or is refused.',
  ['histories', 'inputs', 'fault_sequences', 'crash_points'],
  'every history of training, prediction, saving and loading interleaved over several instances, every table of readings, every failing or torn write',
  'No test trains or uses a disaggregation method; leaks between tables or instances need particular sequences.',
  ['nilmtk/disaggregate/disaggregator.py', 'nilmtk/disaggregate/mean.py', 'nilmtk/disaggregate/combinatorial_optimisation.py', 'nilmtk/disaggregate/fhmm_exact.py', 'nilmtk/disaggregate/hart_85.py', 'nilmtk/feature_detectors/cluster.py', 'nilmtk/feature_detectors/steady_states.py', 'nilmtk/utils.py'],
  [('prediction', 'disaggregate_chunk of each method'), ('training', 'partial_fit of each method'), ('saving and loading', 'Mean.save_model/load_model'), ('nearest combination', 'utils.find_nearest'), ('edges', 'find_steady_states')],
  'seeded histories interleaved over several instances with torn, failing and crashing model writes and perturbed random state; every prediction is compared with the same method alone in a forked process and with a direct computation',
  SAMPLED + 'Training starts from a fixed state of the shared random number generator; FHMM and Hart85 are trained on appliances which switch on and off.',
  state=[('model', 'what the readings trained on say', 'clf.model'), ('saved model', 'model.txt', 'file')],
  observe=['partial_fit', 'disaggregate_chunk', 'Mean.save_model', 'Mean with pretrained-model-path'])

P('C13', 'Converting a raw dataset keeps every reading of every channel, in any file order',
  'A dataset converter (REDD, UK-DALE, REFIT, GREEND, HES, iAWE, AMPds, COMBED, ECO, DRED, SMART, IDEAL, HIPE, Dataport CSV, CAXE) stores, for each channel of the raw files, exactly its readings at their own instants '
  'and with their values, in the meter which the metadata it writes name for that channel - also when readings are repeated, out of order or missing, when a house or channel is spread over several files or parts of a file, and across clock changes. '
  'The result does not depend on the order in which directories are listed or worker processes finish, nor on the number of rows read at a time. A failed read or write surfaces, and converting again gives the complete result. '
  'The raw files, the working directory and the temporary directory are left as they were, and the result can be opened at once.',
  ['inputs', 'schedules', 'fault_sequences', 'crash_points'],
  'every raw dataset in the documented layout, every listing order, every order of workers, every failing read or write and crash followed by another conversion',
  'No stable test converts a dataset: the raw data are not available, listing orders and worker orders are those of the machine, and reads never fail.',
  ['nilmtk/dataset_converters', 'nilmtk/utils.py', 'nilmtk/datastore/hdfdatastore.py', 'nilmtk/datastore/csvdatastore.py'],
  [('channel to meter', 'convert_* functions'), ('worker processes', 'convert_greend'), ('reading in parts', 'convert_hes, convert_refit, csv_converter'), ('metadata', 'save_yaml_to_datastore, convert_yaml_to_hdf5')],
  'seeded raw datasets converted under drawn directory orders, worker schedules and part sizes with injected I/O failures and crashes; the result is read back without nilmtk and compared with the generated readings and between orders',
  SAMPLED + 'Raw files are small; converters that need a network or a database are left out; tables without any row are not generated; listing a directory does not fail (glob and pathlib hide such errors).',
  state=[('converted tables', 'one per channel of the raw files', 'output file')],
  observe=['tables and metadata of the output', 'raw files', 'working directory', 'temporary directory'])

P('C14', 'Temporary stores are private and removed; failures leave nothing open',
  'Temporary data stores that are alive at the same time never share data or files, never touch files that existed before, and are gone from the disk when closed (closing twice is harmless). A data set that cannot be opened - its file is damaged, foreign, '
  'or without metadata, or a read fails - and a temporary store that cannot be created leave no file open or behind, so that the file can be written or replaced straight away. '
  'Clearing the model checkpoints of a method removes exactly the files with its prefix and the ending .h5 in the working directory. A process that ends, normally or by an exception, leaves no temporary file of nilmtk.',
  ['histories', 'fault_sequences', 'configurations'],
  'every interleaving of temporary stores, data sets that open or fail to open, queries and clean-ups, every failing call inside them, every ordinary end of the process',
  'Tests open intact files, one at a time, and nobody looks at what stays open or behind afterwards.',
  ['nilmtk/datastore/tmpdatastore.py', 'nilmtk/dataset.py', 'nilmtk/__init__.py', 'nilmtk/datastore/datastore.py', 'nilmtk/disaggregate/disaggregator.py'],
  [('temporary file', 'TmpDataStore.__init__/close'), ('import of metadata', 'DataSet.import_metadata'), ('cache of statistics', 'nilmtk.STATS_CACHE'), ('checkpoints', 'Disaggregator.clear_model_checkpoints')],
  'seeded interleavings with repeated temporary names and injected failures of opening, reading, writing and removing; open descriptors and directories are compared with a model after each step',
  SAMPLED + 'A process that is killed cannot clean up, and is not counted.',
  state=[('live temporary stores', 'created and not closed', 'temporary directory')],
  observe=['/proc/self/fd', 'temporary directory', 'working directory'])
P('C15', 'A query changes nothing of its caller, and its result belongs to the caller',
  'Loading, statistics, selections and structural queries do not change the objects they are given - sections, dictionaries of arguments, lists of columns, meters and identifiers, preprocessing nodes, groups - so that the same objects can be used again, for another '
  'meter, a group, or two streams that are read alternately, with the answer that fresh arguments would give. Whatever the caller does to a result (overwriting frames, removing meters from a returned group, clearing lists or graphs) changes no later answer. '
  'The same holds after a query that failed because a read failed.',
  ['histories', 'interleavings', 'fault_sequences'],
  'every history of queries and alternately read streams sharing argument objects, every overwritten result, every failing read in between',
  'A test asks once, with arguments made for that one call, and throws the result away.',
  ['nilmtk/elecmeter.py', 'nilmtk/metergroup.py', 'nilmtk/electric.py', 'nilmtk/node.py', 'nilmtk/utils.py', 'nilmtk/timeframegroup.py'],
  [('loading and preprocessing', 'ElecMeter.load'), ('groups from lists', 'MeterGroup.__init__, convert_to_list'), ('selections', 'MeterGroup.select'), ('statistics', 'ElecMeter._get_stat_from_cache_or_compute')],
  'seeded histories with shared arguments, alternating streams, overwritten results and failing reads; each answer is compared with that of a forked process on its own copy of the file with arguments of its own, each argument with its image before the call',
  SAMPLED + 'Metadata dictionaries are attributes of their objects and may be changed by the caller; arguments are not changed while a stream is read.',
  state=[('arguments of the caller', 'sections, nodes, dictionaries and lists', 'memory of the caller'), ('results of the caller', 'frames, groups, graphs', 'memory of the caller')],
  observe=['answers', 'arguments'])

P('C16', 'The structure of a building is what its metadata say, whatever else is open',
  'Wiring, mains, submeters, upstream meters, nested groups, selections by meter or appliance metadata, labels, thresholds, devices and measurements of each building follow from the metadata of its own data set and from the mains that are in use, and consist of meters of '
  'that data set: whatever other data sets are open or have been closed (also with the same name, identifiers or device names), in whatever order they were opened, whichever failed to open, and in whatever order the metadata list meters and appliances. '
  'A disabled site meter is nobody\'s upstream meter until the mains are swapped.',
  ['histories', 'configurations', 'fault_sequences'],
  'every set of data sets, every order of opening, closing, failed opening, swapping mains and asking, every order of the metadata',
  'Tests open one data set with a few meters; nilmtk keeps class-level tables and a global group of meters for which the history of the process matters.',
  ['nilmtk/metergroup.py', 'nilmtk/elecmeter.py', 'nilmtk/electric.py', 'nilmtk/appliance.py', 'nilmtk/building.py', 'nilmtk/dataset.py'],
  [('import', 'MeterGroup.import_metadata'), ('wiring', 'ElecMeter.upstream_meter, MeterGroup.wiring_graph'), ('selections', 'MeterGroup.__getitem__/select, Appliance.matches'), ('mains', 'MeterGroup.mains/use_alternative_mains')],
  'seeded histories over 1-3 generated data sets, compared after each step with a model built from the metadata alone',
  SAMPLED + 'Metadata follow the schema; two appliances of one building have different types or instances wherever that matters.',
  state=[('structure', 'members, disabled meters, wiring', 'MeterGroup'), ('class-level tables', 'devices, appliance types, global group', 'process')],
  observe=['answers of structural queries', 'stores of the meters in them'])

P('C17', 'The same question has the same answer in every process, down to its order',
  'Answers of nilmtk - loads, statistics, structure and tables of metadata, selections, labels, predictions and errors of whole experiments (with seeded random numbers), converted data sets - depend on the data, the arguments and the seeds only: '
  'bit for bit, including the order of columns, rows, meters, labels and edges. They do not change with the seed of string hashes, the local time zone or the clock of the process, the order in which directories are listed or worker processes finish, '
  'the working directory, or the order in which questions are asked.',
  ['configurations', 'schedules', 'histories'],
  'every dataset, every question, every environment and history of the process that asks',
  'A test runs in one process with one environment; an order that comes from a set or a directory listing looks right there.',
  ['nilmtk/dataset.py', 'nilmtk/metergroup.py', 'nilmtk/elecmeter.py', 'nilmtk/results.py', 'nilmtk/api.py', 'nilmtk/datastore/csvdatastore.py', 'nilmtk/dataset_converters'],
  [('order of buildings', 'DataSet._init_buildings'), ('order of AC types', 'Results._columns_with_end_removed'), ('time zones', 'converters, set_window'), ('order of appliances', 'API.experiment')],
  'seeded questions asked in up to three processes with drawn hash seeds, time zones, clocks, directory orders, worker orders and orders of questions; the answers are compared bit for bit',
  SAMPLED + 'Three hash seeds and time zones besides that of the check; mathematical libraries run with one thread; part sizes are not given for CSV stores.',
  state=[('environment', 'hash seed, TZ, clock, listing order', 'process')],
  observe=['answers', 'converted files', 'errors of experiments'])

P('C18', 'Metrics compare predictions with measurements of the same meter at the same time',
  'The metrics of a disaggregation (error in assigned energy, fraction of energy assigned correctly, mean normalised error, RMS error, F1 score) are those of a direct computation on the samples of predictions and ground truth: each meter is compared with the meter '
  'of the same identity, over all good sections both have, at the instants both have, each once, whatever gaps, extents, sample periods, limits, time zones and windows the two data sets have, whichever meters one of them lacks, and in whatever parts data are read. '
  'Asking changes neither data set, a failing read surfaces, and the same question then has the right answer.',
  ['inputs', 'configurations', 'histories', 'fault_sequences'],
  'every pair of predictions and measurements with their gaps, extents, periods, windows and time zones, every order of questions and window moves, every failing read',
  'The tests compute two metrics on one file against itself; wrong pairings need differing gaps, good sections without common samples, or two time zones.',
  ['nilmtk/metrics.py', 'nilmtk/metergroup.py', 'nilmtk/electric.py', 'nilmtk/elecmeter.py', 'nilmtk/timeframe.py', 'nilmtk/timeframegroup.py'],
  [('pairing of instants', 'electric.align_two_meters'), ('pairing of meters', 'metrics.iterate_through_submeters_of_two_metergroups'), ('common sections', 'TimeFrameGroup.intersection'), ('on and off', 'Electric.when_on')],
  'seeded pairs of data sets with drawn windows, part sizes and injected read failures; each metric is compared with a direct computation on the generated samples',
  SAMPLED + 'Whether the last sample of a good section counts is left open; the mean normalised error may divide by all measurements or by those at common instants; F1 is asked for equal sample periods.',
  observe=['nilmtk.metrics'])
P('C19', 'A disaggregation written to a data store is complete and a data set of its own',
  'The disaggregation of mains which the trained models of nilmtk.legacy write to a data store has, for each appliance the model knows, one table with the very instants of the mains, covering each good section of the window (apart from sections shorter than a documented minimum) '
  'in order, and the mains themselves. Combinatorial optimisation writes the combination of states nearest to the mains, the factorial hidden Markov model the decoded one. Tables, metadata and wiring make a data set that opens, with the right appliances, periods, timeframe and energy. '
  'Disaggregating changes neither model nor source; a model exported and imported is the same; failing reads and writes surface and a retry succeeds.',
  ['inputs', 'configurations', 'histories', 'fault_sequences'],
  'every data set, training window, window to disaggregate, sample period, part size, order of training, disaggregation, export and import, every failing read or write',
  'The tests train on one recording and disaggregate it as a whole; wrong pairings, lost sections or parts need gaps, several sections, windows, other buildings and files that fail.',
  ['nilmtk/legacy/disaggregate/disaggregator.py', 'nilmtk/legacy/disaggregate/combinatorial_optimisation.py', 'nilmtk/legacy/disaggregate/fhmm_exact.py', 'nilmtk/legacy/disaggregate/hart_85.py', 'nilmtk/feature_detectors/cluster.py',
   'nilmtk/feature_detectors/steady_states.py', 'nilmtk/elecmeter.py', 'nilmtk/metergroup.py', 'nilmtk/datastore/hdfdatastore.py', 'nilmtk/datastore/csvdatastore.py'],
  [('output metadata', 'Disaggregator._save_metadata_for_disaggregation'), ('nearest combination', 'CombinatorialOptimisation.disaggregate_chunk'), ('decoding', 'FHMM.disaggregate_chunk'), ('edges and pairs', 'find_steady_states, Hart85.pair')],
  'seeded histories of training, disaggregation, export and import under injected read, write and allocation failures; every written table is compared with a direct computation on the generated samples and the model, the output opened again',
  SAMPLED + 'Mains are meter 1 of the source, as the output format has it. MLE and FHMM.train_across_buildings cannot run with the installed scikit-learn and hmmlearn and are not covered; Hart85 is asked for one measurement, and which appliance it takes an edge for is not judged.',
  observe=['nilmtk.legacy.disaggregate', 'nilmtk.feature_detectors'])
P('C20', 'Derived analyses of meters and buildings follow from their samples',
  'Switching times, switches of several meters at once, the correlation of meters and of groups, pairwise tables, entropy and mutual information, the instant at which data are split for training, the table of all meters side by side, the activity script and the description of a building or data set '
  'say what a direct computation on the samples in the window says, for every meter under its own name, whatever gaps, extents, sample periods and mains the building has, whatever was asked before and in whatever parts the data are read; readings at different instants are never paired. '
  'A failing read surfaces, and the same question then has the right answer.',
  ['inputs', 'configurations', 'histories', 'fault_sequences'],
  'every building with its gaps, extents and periods, every threshold, fraction, window and part size, every order of questions, every failing read',
  'The tests ask one correlation of a gapless file; mistakes need gaps, several good sections, meters which lack data in the window, or several parts.',
  ['nilmtk/electric.py', 'nilmtk/metergroup.py', 'nilmtk/building.py', 'nilmtk/dataset.py', 'nilmtk/elecmeter.py'],
  [('switches', 'Electric.switch_times'), ('pairing of instants', 'Electric.correlation'), ('side by side', 'MeterGroup.dataframe_of_meters'), ('split', 'MeterGroup.train_test_split'), ('description', 'MeterGroup.describe')],
  'seeded histories of analyses and window moves under injected read failures; each answer is compared with a direct computation on the generated samples',
  SAMPLED + 'Entropy and mutual information are asked of powers which all differ; a correlation with a group is compared with what that group delivers; the part of a description which concerns split mains is not compared.',
  observe=['nilmtk.electric', 'nilmtk.metergroup'])
N('C21', 'Loss functions are the published formulas',
  'Each loss function gives, for any two series of the same length, the value its published formula gives, without changing either series.',
  ['inputs'], 'every pair of series', 'The tests call none of them on series with ties, zeros or missing values.',
  ['nilmtk/losses.py'], [('formulas', 'nilmtk.losses')],
  'Pure functions of two arrays: no schedule, time, I/O, randomness or fault can change what they give, so a simulator has nothing to decide. That an experiment pairs the right readings before it calls them is part of C11.')
N('C22', 'Plots show the data which they are given',
  'A plot of a meter, a group or a data set shows the power, good sections or shares of energy of the window which is set, with each meter under its own name.',
  ['inputs', 'configurations'], 'every data set and window', 'The tests draw nothing.',
  ['nilmtk/plots.py', 'nilmtk/electric.py', 'nilmtk/metergroup.py'], [('drawing', 'nilmtk.plots')],
  'What is drawn is a deterministic function of answers which C07 to C10 and C20 judge, handed to matplotlib, for which no reference exists here; no schedule, clock or fault bears on it beyond the reads which those properties cover.')
