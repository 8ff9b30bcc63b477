"""Source of properties.jsonl and of the checks listed in MANIFEST.json.
Regenerate with: python3 tools/gen.py"""

PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique, note, observe=(), state=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      technique=technique, note=note, observe=list(observe), state=list(state)))


P('C01', 'A TimeFrame behaves as the set of instants from its start to its end',
  'A time frame stands for the instants from its start up to but not including its end (including it if so marked; without bound where start or '
  'end is None; none at all if it is empty; all of them if disabled), and intersection, union, overlap checks, slicing of data, time deltas, '
  'adjacency, comparison, hashing and the dict round trip all agree with that set. The intersection of two frames contains exactly the instants '
  'in both, slicing keeps exactly the rows at contained instants, frames with equal bounds are equal and hash equally, and a frame is never left '
  'with its end before its start: the assignment is refused.',
  ['inputs', 'configurations'],
  'all pairs and triples of frames with ms endpoints, open / inclusive / empty / disabled, naive, UTC and DST zones; all probe instants',
  'test_timeframe samples a dozen hand-picked pairs; open, inclusive, disabled and DST-zone combinations are never crossed.',
  ['nilmtk/timeframe.py'],
  [('TimeFrame.intersection/union/slice/adjacent', 'nilmtk/timeframe.py'), ('start/end setters', 'nilmtk/timeframe.py')],
  'property-based testing against an interval-membership model', 'up to 3 frames per case, endpoints at ms resolution',
  ['TimeFrame methods and slices of generated DataFrames'])

P('C02', 'Splitting, merging and intersecting lists of time frames preserves coverage',
  'Splitting a frame by a duration yields adjoining pieces, none longer than the duration, which together cover exactly the frame. Merging a '
  'sorted list with a gap joins precisely the neighbours no further apart than the gap, and the intersection of two lists covers exactly the '
  'instants covered by both, in order. Filtering by a minimum duration, summing uptime, finding the gaps between good sections, and calendar '
  'periods keep precisely what their bounds say.',
  ['inputs'], 'all sorted lists of up to 8 frames with generated durations, gaps and thresholds, exact hits included',
  'test_timeframe checks one split and one merge; exact-threshold and multi-frame combinations are not reached.',
  ['nilmtk/timeframe.py', 'nilmtk/timeframegroup.py'],
  [('TimeFrame.split, merge_timeframes, split_timeframes', 'nilmtk/timeframe.py'), ('TimeFrameGroup.intersection, remove_shorter_than, uptime', 'nilmtk/timeframegroup.py')],
  'property-based testing against partition / coverage models', 'lists of up to 8 frames')

P('C03', 'Loading from an HDF store delivers exactly the rows asked for',
  'Loading a table delivers, in order, exactly the rows that lie inside both the store window and the requested section, each section in turn, '
  'with the stored values, the requested columns in the requested order and the stored time zone. Cutting the load into chunks of any size changes nothing '
  'but the cuts: consecutive chunks of a section share precisely one row, no chunk has more rows than asked for plus that row, and a '
  'look-ahead of n rows is precisely the next n stored rows. Every chunk carries the time frame it covers, and an unknown key or column raises KeyError.',
  ['inputs', 'configurations'], 'all tables of 2-40 rows, windows, lists of sections, chunk sizes, column subsets and look-aheads generated',
  'test_datastore loads one regular 10k-row table with a few sections and sizes; boundaries on rows, gaps, NaN and tiny chunks are not reached (several store tests do not even run).',
  ['nilmtk/datastore/hdfdatastore.py', 'nilmtk/datastore/datastore.py'],
  [('HDFDataStore.load', 'nilmtk/datastore/hdfdatastore.py'), ('_get_generator / look_ahead', 'nilmtk/datastore/hdfdatastore.py')],
  'property-based testing against a direct row filter', 'tables of 2-40 rows, chunk sizes from 1; one-row tables are out of scope')

P('C04', 'A CSV store gives back what was written, filtered exactly',
  'Tables written to a CSV store in one put or in several appends, also across a change of the clocks, are read back with the same instants, column names and values. Loading with a '
  'window, sections, column subsets, any chunk size and look-ahead delivers precisely the rows inside window and section once and in order, '
  'and the look-ahead rows are precisely the rows that follow; an unknown key raises KeyError.',
  ['inputs', 'histories'], 'all generated tables, split into 1-3 written pieces, x windows x sections x chunk sizes x look-ahead',
  'the CSV store tests cover one table written once; append and filters at chunk borders are not exercised.',
  ['nilmtk/datastore/csvdatastore.py', 'nilmtk/datastore/datastore.py'],
  [('CSVDataStore.load/put/append', 'nilmtk/datastore/csvdatastore.py')],
  'property-based testing, write/read round trip against a direct row filter', 'tables of 2-40 rows, also across the end or begin of daylight-saving time')

P('C05', 'A data store holds exactly what its history of operations put there',
  'After any sequence of put, append, remove, saving of metadata, closing and reopening, each key of a store yields exactly the rows last put '
  'there followed by those appended, removed keys are gone and no other key is affected, listing the elements below a key names exactly its children, '
  'and metadata reads back as last saved. This holds for HDF, CSV and temporary stores alike. Keys translate to building and meter numbers and back without loss.',
  ['histories'], 'all histories of up to 14 operations over 3 buildings x 3 meters, 3 kinds of store',
  'the tests read one prepared file and never mutate, interleave or reopen.',
  ['nilmtk/datastore/hdfdatastore.py', 'nilmtk/datastore/csvdatastore.py', 'nilmtk/datastore/tmpdatastore.py', 'nilmtk/datastore/key.py', 'nilmtk/datastore/datastore.py'],
  [('put/append/remove/save_metadata', 'nilmtk/datastore/*.py'), ('Key, join_key', 'nilmtk/datastore/key.py')],
  'stateful (model-based) testing against a dict model', 'histories of up to 14 operations')

P('C06', 'Converting a data store copies the dataset completely',
  'Converting a store to another store, HDF or CSV in either direction, gives a store with the same buildings, meters, rows, columns, values and '
  'metadata as the source as seen through its window, whatever the number of buildings and meters. The source is left as it was, and converting there and back is the identity.',
  ['inputs', 'configurations'], 'all generated datasets of 1-3 buildings x 1-4 meters, the four format pairs and round trips, with and without a window, UTC and zones with daylight saving',
  'test_datastore_converter converts one dataset in one direction.',
  ['nilmtk/datastore/datastore.py', 'nilmtk/datastore/csvdatastore.py', 'nilmtk/datastore/hdfdatastore.py'],
  [('convert_datastore', 'nilmtk/datastore/datastore.py')],
  'property-based testing, cross-format round trip against the generated spec', 'up to 12 meters per dataset')

P('C07', 'A dataset presents all its buildings and meters, and its window bounds them all',
  'Importing a dataset presents exactly the buildings, meters, appliances, identifiers and metadata that were saved, each meter with its own data. '
  'After each call of set_window, loading any meter of any building gives precisely its rows inside the window of local time of the dataset, '
  'and passing None lifts the corresponding bound.',
  ['inputs', 'histories'], 'all generated datasets x sequences of set_window calls with local times (as str, Timestamp or datetime) or None in 4 time zones',
  'the tests open one dataset and set no window.',
  ['nilmtk/dataset.py', 'nilmtk/building.py', 'nilmtk/elecmeter.py', 'nilmtk/metergroup.py'],
  [('DataSet.import_metadata, set_window', 'nilmtk/dataset.py'), ('Building.import_metadata', 'nilmtk/building.py'), ('MeterGroup.import_metadata', 'nilmtk/metergroup.py')],
  'property-based testing against the generated spec', 'set_window is given naive local times', ['DataSet.buildings, ElecMeter.load'])

P('C08', 'Loading a meter gives exactly the measurements asked for',
  'Loading a meter by physical quantity, AC type, both, or explicit columns gives exactly the matching columns that the meter records, with the stored '
  'values. "best" picks one AC type by the documented preference (active, then apparent, then reactive) for the quantity asked for, the available '
  'quantities and AC types are exactly those declared, and a request the meter cannot meet raises MeasurementError instead of returning other data.',
  ['inputs', 'configurations'], 'all meters with 1-6 of 11 measurements x requests, valid or not',
  'test_elecmeter tries a few requests on one meter.',
  ['nilmtk/elecmeter.py', 'nilmtk/electric.py', 'nilmtk/measurement.py'],
  [('ElecMeter._convert_physical_quantity_and_ac_type_to_cols, _ac_type_to_columns, available_ac_types', 'nilmtk/elecmeter.py'), ('select_best_ac_type', 'nilmtk/measurement.py')],
  'property-based testing against set comprehension over the declared measurements', 'lists of AC types of which only some are recorded are not claimed')

P('C09', 'Resampled loads hold the mean of each bin and fill only bounded gaps',
  'Loading with a sample period gives one row per period-aligned bin between the first and last sample: the mean (or the requested resampling function) of the samples '
  'inside the bin, or the last value carried forward over at most ceil(max_sample_period / sample_period) empty bins, or nothing. Loading power '
  'as one series, or the on-state, gives the same rows whatever the chunk size, without duplicates, in order; preprocessing of the caller sees the samples as stored.',
  ['inputs', 'configurations'], 'all generated recordings (gaps, NaN, DST changes, 4 zones) x sample periods x sections x chunk sizes',
  'test_elecmeter compares one resampled load of one regular table.',
  ['nilmtk/elecmeter.py', 'nilmtk/electric.py', 'nilmtk/utils.py'],
  [('ElecMeter._prep_kwargs_for_sample_period_and_resample', 'nilmtk/elecmeter.py'), ('Electric.power_series_all_data, when_on', 'nilmtk/electric.py'), ('safe_resample', 'nilmtk/utils.py')],
  'property-based testing against integer-arithmetic binning', 'recordings of up to 40 samples')

P('C10', 'Preprocessing does exactly what it says, in order, and checks preconditions',
  'Clipping limits every value of every measurement that has limits to them (each limit applies on its own) and leaves missing values and '
  'everything else alone; applying a function applies it to each chunk, and a pipeline equals the composition of its nodes in order, on all '
  'chunks, also when nodes are shared between loads. A node whose requirements its source does not meet raises UnsatisfiedRequirementsError before any data are processed, and '
  'only then.',
  ['inputs', 'configurations'], 'all generated pipelines of 1-3 nodes x limits x data x chunk sizes; all nested state/requirement dicts up to depth 3',
  'test_node checks a handful of requirement dicts and no data.',
  ['nilmtk/preprocessing/clip.py', 'nilmtk/preprocessing/apply.py', 'nilmtk/node.py'],
  [('Clip.process, _index_of_column_name', 'nilmtk/preprocessing/clip.py'), ('Node.check_requirements, find_unsatisfied_requirements', 'nilmtk/node.py')],
  'property-based testing against element-wise reference', 'pipelines of up to 3 nodes')

P('C11', 'Total energy is the integral of what was recorded, however it is cut',
  'The energy of a meter per AC type is the increase of its cumulative energy, else the sum of its energy readings, else the sum of power times '
  'the time to the next sample, capped at max_sample_period, after clipping to the device limits, in kWh. It equals the sum over '
  'any disjoint sections asked for, respects the window, and does not depend on the chunk size; the per-period results add up to it.',
  ['inputs', 'configurations'], 'all generated recordings x sections x windows x chunk sizes x AC types',
  'the energy tests in the repository use one hand-made table and most of them do not run here.',
  ['nilmtk/stats/totalenergy.py', 'nilmtk/stats/totalenergyresults.py', 'nilmtk/elecmeter.py'],
  [('get_total_energy, _energy_for_power_series', 'nilmtk/stats/totalenergy.py'), ('TotalEnergy.process', 'nilmtk/stats/totalenergy.py')],
  'property-based testing against direct summation', 'chunked power columns without NaN; HDF stores')

P('C12', 'Good sections are the maximal runs of samples without a gap',
  'The good sections of a meter are exactly the maximal runs of at least two complete rows whose consecutive samples are no further apart than '
  'max_sample_period, in order and non-overlapping, cut at the bounds of the window and of the sections asked for. They do not '
  'depend on how the data are cut into chunks.',
  ['inputs', 'configurations'], 'all generated recordings with gaps at, below and above the maximum x sections x windows x chunk sizes',
  'the repository tests one small table (and not in the stable set).',
  ['nilmtk/stats/goodsections.py', 'nilmtk/stats/goodsectionsresults.py'],
  [('get_good_sections', 'nilmtk/stats/goodsections.py'), ('GoodSections.process', 'nilmtk/stats/goodsections.py'), ('GoodSectionsResults.combined', 'nilmtk/stats/goodsectionsresults.py')],
  'property-based testing against a run-length reference', 'chunked cases use HDF and complete rows')

P('C13', 'The dropout rate is the fraction of expected samples that is missing',
  'The dropout rate of a recording is 1 minus the number of samples over the number expected from its duration and sample period, never outside '
  '[0, 1]; over several sections it is the mean weighted by their samples, and ignoring gaps restricts it to the good sections. Asking again gives the same answer.',
  ['inputs'], 'all generated recordings with lost samples, bursts and gaps x sections',
  'not in the stable tests at all.',
  ['nilmtk/stats/dropoutrate.py', 'nilmtk/stats/dropoutrateresults.py', 'nilmtk/elecmeter.py'],
  [('get_dropout_rate', 'nilmtk/stats/dropoutrate.py'), ('ElecMeter.dropout_rate', 'nilmtk/elecmeter.py'), ('DropoutRateResults.combined', 'nilmtk/stats/dropoutrateresults.py')],
  'property-based testing against counting', 'sections of fewer than five samples are only checked for the range')

P('C14', 'Results of statistics combine, merge and pass through the cache exactly',
  'A results object holds exactly the sections added to it, in time order, with their values, whatever the order of adding, and refuses a section which overlaps one it '
  'holds. Its combined value is the sum (energy), the sample-weighted mean (dropout rate) or the concatenation (good sections) of its sections, reading '
  'it changes nothing, and merging another meter\'s results for the same sections adds, averages or intersects section by section while other sections are refused. '
  'Exporting to the cache and importing any of the sections gives them back with the same bounds, time zone and values.',
  ['histories', 'inputs'], 'all histories of up to 9 operations on the three kinds of results in three time zones, some across a DST change',
  'no existing stable test touches results objects.',
  ['nilmtk/results.py', 'nilmtk/stats/totalenergyresults.py', 'nilmtk/stats/goodsectionsresults.py', 'nilmtk/stats/dropoutrateresults.py'],
  [('Results.append/update/unify/import_from_cache/export_to_cache', 'nilmtk/results.py')],
  'stateful (model-based) testing against a dict of sections', 'good sections in these histories are closed (open ones: C12)')

P('C15', 'Cached statistics are indistinguishable from freshly computed ones',
  'Whatever statistics were asked for before, of this or another meter, building or dataset, with whatever sections, window, AC type or quantity, '
  'total_energy, good_sections and dropout_rate return what they return with an empty cache. Clearing the cache never changes an answer while the data stay, and after it the answers are those of the data as they are now.',
  ['histories'], 'all histories of 2-8 queries over two meters in each of two datasets with equal building and meter numbers, windows changing or tables being replaced in between',
  'each existing test asks one question once.',
  ['nilmtk/elecmeter.py', 'nilmtk/results.py', 'nilmtk/datastore/tmpdatastore.py'],
  [('ElecMeter._get_stat_from_cache_or_compute, key_for_cached_stat', 'nilmtk/elecmeter.py'), ('Results.import_from_cache', 'nilmtk/results.py')],
  'stateful differential testing: warm cache against empty cache', 'known finding: include_end is not part of the cache; contiguous sections of good_sections excluded')

P('C16', 'Activations, switch events and activity histograms follow from the power',
  'The activations of a meter are exactly the maximal runs of samples at or above the on-power threshold, joined where the pause between them is at most the '
  'minimum off duration and kept where they last at least the minimum on duration, each with its unchanged data and the requested border. Switch times are the samples whose step from the sample '
  'before exceeds the threshold; the histograms of power and of activity by time of day count each sample, or each bin in which the appliance is on, exactly once, and the activity script of a dataset holds the start and end of each activation.',
  ['inputs', 'configurations'], 'all generated on/off patterns with values at the threshold, NaN, irregular times, durations at the limits x thresholds from metadata or arguments',
  'no stable test touches activations.',
  ['nilmtk/electric.py', 'nilmtk/stats/histogram.py'],
  [('get_activations, Electric.get_activations', 'nilmtk/electric.py'), ('Electric.switch_times, activity_histogram', 'nilmtk/electric.py'), ('histogram_from_generator', 'nilmtk/stats/histogram.py')],
  'property-based testing against a run-length model', 'series of up to 40 samples; activity histograms with periods D and h')

P('C17', 'Energy proportions, uptime, correlation and entropy equal their definitions',
  'The proportion of energy of a meter with respect to another (or to its upstream meter) is the ratio of their energies over the good sections of the other, per shared AC '
  'type; uptime is the total length of the good sections, the average energy per period is the energy over the uptime (or time span) in '
  'periods, and vampire power is the smallest power. Correlation is the Pearson coefficient of the aligned series, symmetric in its arguments, and entropy and mutual information equal '
  'the k-nearest-neighbour estimates.',
  ['inputs'], 'all generated triples of meters with gaps, differing AC types and values; aligned pairs with equal or multiple sample periods',
  'no stable test computes any of these.',
  ['nilmtk/electric.py'],
  [('proportion_of_energy, proportion_of_upstream, average_energy_per_period, uptime', 'nilmtk/electric.py'), ('correlation, entropy, mutual_information', 'nilmtk/electric.py')],
  'property-based testing against direct summation and brute-force estimators', 'tables of up to 16 rows (energy), 100 (correlation), 30 (information)')

P('C18', 'Looking up, selecting and grouping meters finds exactly the matching ones',
  'Selecting meters by appliance type, category, room, id or other criteria gives each matching meter once and no other; looking one up by name, number, '
  'identifier or dict gives the one that fits best, or raises KeyError when there is none (or no single one). Unions, groupings, dropping duplicates and listings of a group are those of the set of its meters, '
  'and equality and hashes of meters, groups and appliances agree.',
  ['inputs', 'configurations'], 'all generated datasets of 1-2 buildings x 2-6 meters with shared, repeated and missing appliances and nested groups x queries',
  'the stable tests look up a few appliances in one hand-made building.',
  ['nilmtk/metergroup.py', 'nilmtk/appliance.py', 'nilmtk/elecmeter.py'],
  [('MeterGroup.__getitem__, select, select_using_appliances, groupby, union', 'nilmtk/metergroup.py'), ('Appliance.matches', 'nilmtk/appliance.py'), ('ElecMeter.matches', 'nilmtk/elecmeter.py')],
  'property-based testing against set comprehension over the generated building',
  'identifiers of meters inside nested groups and keys that only some members define are not claimed')

P('C19', 'A group of meters loads as the sum of its meters, in time',
  'Loading a group gives, for each bin of the sample period, the sum of the power (the mean of the voltage) of those of its meters that have data, and nothing else, '
  'whatever the order of the meters and the chunk size. The time frame of a group is the union of those of its meters, its sample period '
  'the longest of theirs, and a data frame of its meters holds each meter\'s own series.',
  ['inputs', 'configurations'], 'all generated groups of 1-4 meters with differing spans, gaps, sample periods and zones x windows x sections',
  'no stable test loads a group.',
  ['nilmtk/metergroup.py', 'nilmtk/timeframe.py'],
  [('MeterGroup.load, iterate_generators_in_parallel', 'nilmtk/metergroup.py'), ('MeterGroup.get_timeframe, dataframe_of_meters', 'nilmtk/metergroup.py')],
  'property-based testing against integer-arithmetic binning and summation', 'chunked loads with sections aligned to bins; fills at chunk borders and the last bin of the default time frame are not claimed')

P('C20', 'Energy statistics of a group are those of its meters put together',
  'The total energy of a group is, per AC type, the sum of the energies of its meters that record it, over the same sections and window; energy per meter (absolute, '
  'per period, with the remainder of the mains), fractions and the top k meters by energy agree with the single meters\' energies, also for nested groups. The proportion of energy '
  'submetered is the sum of the proportions of the meters directly below the mains, and the train/test split leaves the asked-for fraction of the good mains data before it; descriptions report these figures.',
  ['inputs', 'configurations'], 'all generated buildings of 2-5 meters with differing AC types, quantities, gaps and spans, some nested x sections x arguments',
  'no stable test computes a statistic of a group.',
  ['nilmtk/metergroup.py', 'nilmtk/stats/totalenergyresults.py', 'nilmtk/electric.py'],
  [('MeterGroup.total_energy, energy_per_meter, fraction_per_meter, select_top_k', 'nilmtk/metergroup.py'), ('MeterGroup.proportion_of_energy_submetered, train_test_split', 'nilmtk/metergroup.py'),
   ('TotalEnergyResults.unify', 'nilmtk/stats/totalenergyresults.py')],
  'property-based testing against direct summation over the generated tables',
  'full results of meters which do not share their samples may be refused; the remainder is claimed where all meters have the same best AC type')

P('C21', 'The wiring of a building is what its metadata say, within the same open dataset',
  'mains, submeters, the upstream meter of each meter and group, the wiring graph and the meters directly downstream of the mains are exactly those of the submeter_of '
  'relation (0 meaning the mains), and belong to the same opened dataset however many are open, reopened or of the same name. '
  'Swapping in alternative mains exchanges just the site meters, and the group matching another dataset\'s group has the same meters and nesting.',
  ['configurations', 'histories'], 'all generated buildings of 2-6 meters with 0-2 site meters, chains, disabled meters and nested groups x openings of one or two datasets',
  'the stable tests open each dataset once.',
  ['nilmtk/metergroup.py', 'nilmtk/elecmeter.py', 'nilmtk/utils.py'],
  [('ElecMeter.upstream_meter, __init__', 'nilmtk/elecmeter.py'), ('MeterGroup.mains, wiring_graph, meters_directly_downstream_of_mains, from_other_metergroup', 'nilmtk/metergroup.py'), ('tree_root', 'nilmtk/utils.py')],
  'property-based testing against the generated submeter_of relation', '"mains" (0) in buildings with a disabled site meter is not claimed')

P('C22', 'Metrics and losses equal their documented formulas',
  'Error in assigned energy, fraction of energy assigned correctly, mean normalised error, RMS error and F1 score of a group of predictions against the ground truth equal '
  'their documented formulas over all good sections of the predictions, per meter or nested group and whatever the order of the meters in the two groups; compute_rmse pairs ground truth and predictions by appliance. '
  'The loss functions (mae, rmse, relative error, f1, r2, nde, nep) equal theirs, and neither changes its arguments.',
  ['inputs', 'configurations'], 'all generated pairs of datasets of 1-4 submeters with shifted samples, gaps and AC types; all pairs of series of 2-30 values',
  'no stable test computes a metric.',
  ['nilmtk/metrics.py', 'nilmtk/losses.py', 'nilmtk/electric.py'],
  [('error_in_assigned_energy, fraction_energy_assigned_correctly, mean_normalized_error_power, rms_error_power, f1_score', 'nilmtk/metrics.py'), ('align_two_meters', 'nilmtk/electric.py'), ('mae, rmse, f1score, relative_error, r2score, nde, nep', 'nilmtk/losses.py')],
  'property-based testing against the formulas evaluated by loops', 'whether the last slice of a section counts is left open; sample-wise metrics of nested groups only checked not to fail')

P('C23', 'Disaggregation algorithms predict what their trained model says',
  'Mean predicts for every sample the mean of all valid training samples of all rounds, also after saving and reloading; CO picks, per sample, states of its appliances whose sum is nearest to the mains, '
  'from state lists that are sorted, contain off and stem from the training data; FHMM predicts a most probable path of the product of its appliances\' chains, whose parameters are a consistent renumbering by mean power. '
  'Every prediction has one frame per mains chunk, with its timestamps and one column per trained appliance.',
  ['inputs', 'histories'], 'all generated trainings (1-13 appliances, constant, rare or noisy, NaN, several rounds) x mains (any values, empty chunks)',
  'no stable test trains or runs a disaggregation algorithm.',
  ['nilmtk/disaggregate/mean.py', 'nilmtk/disaggregate/combinatorial_optimisation.py', 'nilmtk/disaggregate/fhmm_exact.py', 'nilmtk/feature_detectors/cluster.py'],
  [('Mean', 'nilmtk/disaggregate/mean.py'), ('CO', 'nilmtk/disaggregate/combinatorial_optimisation.py'), ('FHMMExact, sort_learnt_parameters, create_combined_hmm, decode_hmm', 'nilmtk/disaggregate/fhmm_exact.py'),
   ('cluster', 'nilmtk/feature_detectors/cluster.py'), ('find_nearest', 'nilmtk/utils.py')],
  'property-based testing against brute-force search and an independent Viterbi search', 'series of up to 100 samples; the quality of the fit of an HMM is not claimed; chains hmmlearn cannot estimate are skipped')

P('C24', 'An experiment trains, tests and scores algorithms on exactly the data asked for',
  'In an experiment every algorithm is trained (jointly, or chunk by chunk for each epoch where it supports that, and not at all if pretrained) and tested on the samples of the mains and the appliances in the given windows '
  'of the given buildings, restricted to the timestamps where all have valid data, with the mains replaced by the sum of the appliances on request. '
  'Each reported error is the chosen metric of the ground truth against the prediction of that algorithm, keyed by dataset, building, chunk and metric, none missing and none extra.',
  ['inputs', 'configurations'], 'all generated experiments: 1-2 datasets x 1-2 buildings x windows x chunk sizes x 1-3 appliances x algorithms x metrics',
  'no stable test runs an experiment.',
  ['nilmtk/api.py', 'nilmtk/losses.py'],
  [('API.train_jointly, train_chunk_wise, test_jointly, test_chunk_wise, dropna, predict, call_predict', 'nilmtk/api.py')],
  'property-based testing with recording algorithms against set intersection and loop formulas', 'every meter has data in the windows of a joint experiment; chunks are those the meters\' own loads give')

P('C25', 'Edges are changes between steady levels; Hart85 follows its rules',
  'Edge detection reports, at the start of each change and for one or two power columns, the level (mean since the last change) and the difference to the level before, for just those differences above the noise level. '
  'Hart\'s algorithm pairs each rise with at most one later, nearest matching fall in its buffer, explains each transition by the nearest learnt load, and predicts for each appliance, in every chunk of the mains, the load with the smallest RMS error in training as on between its rises and falls; '
  'an exported and imported model predicts the same.',
  ['inputs', 'histories'], 'all generated series of steps, ramps, spikes and ripple x thresholds; mains of 1-3 switching appliances x buffer sizes, tolerances and chunkings',
  'no stable test covers edge detection or Hart85.',
  ['nilmtk/feature_detectors/steady_states.py', 'nilmtk/disaggregate/hart_85.py', 'nilmtk/feature_detectors/cluster.py'],
  [('find_steady_states, find_steady_states_transients', 'nilmtk/feature_detectors/steady_states.py'), ('Hart85, PairBuffer', 'nilmtk/disaggregate/hart_85.py')],
  'property-based testing against declarative references', 'series of up to 90 samples; Hart85 with one power column; its first on sample and the last sample of a chunk are left open; trainings without any pair are skipped')

P('C26', 'A converted dataset holds each raw reading once, at its time, on its meter',
  'A dataset converter (REDD, UK-DALE, REFIT, DRED, iAWE, AMPds, COMBED, HIPE, IDEAL, GREEND, ECO, HES, Dataport CSV, Smart*, DEDDIAG) turns a directory of raw files into a data store '
  'where the table of every meter holds the readings of its raw channel: each once, at the raw instant in the dataset\'s time zone, in ascending order, in the unit and under the measurement names of nilmtk. '
  'The result does not depend on the order in which the files are listed, on the working directory or on how the readings are spread over the files, and opens as a dataset with the described meters and appliances.',
  ['inputs', 'configurations'], 'all generated raw directories: 1-3 houses x 1-4 channels x readings split over files, unordered, repeated or missing',
  'no stable test runs a converter.',
  ['nilmtk/dataset_converters'],
  [('convert_redd, convert_ukdale, convert_refit, convert_dred, convert_iawe, convert_ampds, convert_combed, convert_hipe, convert_ideal, convert_greend, convert_eco, convert_hes, convert_dataport, convert_smart, convert_deddiag',
    'nilmtk/dataset_converters')],
  'property-based testing of whole conversions of generated raw directories against a direct reading of the raw values',
  'small raw directories; CAXE (reads files of the working directory) and the Dataport database download are not covered; the DEDDIAG database is replaced by a stand-in')

P('C27', 'Disaggregating into a data store yields a dataset of the model\'s predictions',
  'The disaggregators of nilmtk.legacy.disaggregate (combinatorial optimisation, FHMM within and across buildings, Hart85) write, for every mains chunk of at least their minimum length and for no other, a copy of the mains as meter 1 '
  'and the predictions of each trained appliance at the same instants under the measurement of the mains: a nearest combination of the learnt states, a most probable path of the product of the learnt chains, or the learnt load of each transition. '
  'The output opens as a dataset whose submeters hang off meter 1 and carry the appliances, names, sample period and time span, the input stays as it was, and an exported and re-imported model does the same.',
  ['inputs', 'histories', 'configurations'], 'all generated datasets (1-3 buildings, 1-2 site meters, 1-3 appliances, gaps) x sample periods x sections x minimum lengths x numbers of states x export',
  'no stable test trains or runs a legacy disaggregator.',
  ['nilmtk/legacy/disaggregate/disaggregator.py', 'nilmtk/legacy/disaggregate/combinatorial_optimisation.py', 'nilmtk/legacy/disaggregate/fhmm_exact.py', 'nilmtk/legacy/disaggregate/hart_85.py', 'nilmtk/elecmeter.py'],
  [('CombinatorialOptimisation', 'nilmtk/legacy/disaggregate/combinatorial_optimisation.py'), ('FHMM', 'nilmtk/legacy/disaggregate/fhmm_exact.py'), ('Hart85', 'nilmtk/legacy/disaggregate/hart_85.py'),
   ('Disaggregator._save_metadata_for_disaggregation', 'nilmtk/legacy/disaggregate/disaggregator.py')],
  'property-based testing against brute-force search, an independent Viterbi search and declarative references',
  'series of up to 240 samples; the site meters are the first meters; MLE needs a class scikit-learn has removed and is not covered; as in C25, the first on sample and the last sample of a chunk of Hart85 are left open')

P('C28', 'What a data store has accepted survives the death of the process',
  'Once put, append, remove or save_metadata has returned, its effect is on disk: if the process is killed, or leaves without closing the store, a new store on the same files '
  'opens and shows exactly the history so far - every row, section, listing and piece of metadata - and can be extended. '
  'An operation which is refused (a key that is not there, columns that do not fit the table) changes nothing, and rows appended with their columns in another order land under the right names.',
  ['crash_points', 'histories', 'fault_sequences'], 'all generated histories of 1-4 sessions of 1-5 operations, each session ended by SIGKILL, by leaving without close, or by close; HDF and CSV',
  'no test ends a process without closing the store.',
  ['nilmtk/datastore/hdfdatastore.py', 'nilmtk/datastore/csvdatastore.py'],
  [('HDFDataStore.put, append, remove, save_metadata', 'nilmtk/datastore/hdfdatastore.py'), ('CSVDataStore.append', 'nilmtk/datastore/csvdatastore.py')],
  'stateful (model-based) testing with processes killed between operations', 'crashes between operations, not inside one; the death of the machine (unsynced pages) is not covered')
P('C29', 'Plots show the data of their meters',
  'A plot of a meter draws exactly the samples (or means, sums, fractions, sections, drop-out rates, spectra, histograms) of the data asked for, at their times in local time and in the '
  'unit of the axis, on the axes given or on new ones. A plot of a group draws each of its meters once, under its own label. '
  'Plotting changes neither the data nor the arguments.',
  ['inputs', 'configurations'], 'all generated meters of 5-40 samples with gaps x time frames, widths, units, zones and kinds of plot; all generated buildings of 1-5 meters x group plots',
  'no stable test draws a plot.',
  ['nilmtk/plots.py', 'nilmtk/electric.py', 'nilmtk/elecmeter.py', 'nilmtk/metergroup.py', 'nilmtk/dataset.py', 'nilmtk/timeframegroup.py'],
  [('plot_series, plot_pairwise_heatmap, latexify, format_axes', 'nilmtk/plots.py'), ('Electric.plot, plot_lag, plot_spectrum, plot_autocorrelation, plot_power_histogram, plot_activity_histogram', 'nilmtk/electric.py'),
   ('MeterGroup.plot, plot_multiple, plot_good_sections, plot_when_on, draw_wiring_graph', 'nilmtk/metergroup.py'), ('DataSet.plot_good_sections, plot_mains_power_histograms', 'nilmtk/dataset.py')],
  'property-based testing of the drawn artists against loops over the generated rows', 'the last row of the time frame may be left out; alignment of bins only where the period divides an hour; sums only over shared gapless times; rectangles with NaN rates skipped')

P('C30', 'What is answered does not depend on what was asked before',
  'Whatever queries, window changes and cache clearings come before, a query on an open dataset answers what it answers on a newly opened copy with the same window; queries change '
  'neither the metadata nor the objects passed as arguments. '
  'A trained disaggregation model predicts for a chunk the same whatever it was asked before and with which other chunks, and does not change its input.',
  ['histories'], 'all generated histories of 3-10 operations (60 kinds of query, window changes, cache clearing) over datasets of 1-2 buildings, 3-5 meters, nested groups; trained models x 2-4 requests of 1-3 chunks',
  'the stable tests ask each object one thing.',
  ['nilmtk/elecmeter.py', 'nilmtk/metergroup.py', 'nilmtk/electric.py', 'nilmtk/dataset.py', 'nilmtk/disaggregate/'],
  [('ElecMeter.load, dry_run_metadata, get_stat caches', 'nilmtk/elecmeter.py'), ('MeterGroup queries', 'nilmtk/metergroup.py'), ('DataSet.set_window, clear_cache', 'nilmtk/dataset.py'),
   ('disaggregate_chunk of Mean, CO, FHMMExact, Hart85', 'nilmtk/disaggregate/')],
  'stateful (model-based) differential testing against newly opened datasets and copies of the trained model',
  'sample times, windows and sections chosen so that the known finding of C15 (include_end in the cache) cannot arise; the lazily fetched device description in metadata is allowed')

P('C31', 'Helper functions hold their contracts',
  'Bins start where normalise_timestamp and safe_resample say, at every instant of every zone (also on days whose midnight is ambiguous or missing), duplicates keeping the first row. '
  'Time, list, tree, name and HTML helpers return what their documentation says for every argument and leave the arguments alone; cluster finds the levels of a step-like load. '
  'clear_model_checkpoints removes exactly the HDF files with the prefix.',
  ['inputs'], 'all generated instants in 7 zones near changes of the clocks x frequencies; irregular series of up to 30 rows; containers, graphs, nested dictionaries, step-like loads of up to 5000 samples, file names',
  'the stable tests touch none of these helpers.',
  ['nilmtk/utils.py', 'nilmtk/feature_detectors/cluster.py', 'nilmtk/disaggregate/disaggregator.py'],
  [('normalise_timestamp, safe_resample, tz_localize_naive, offset_alias_to_seconds, tree_root, most_common, dict_to_html, ...', 'nilmtk/utils.py'), ('cluster', 'nilmtk/feature_detectors/cluster.py'),
   ('clear_model_checkpoints', 'nilmtk/disaggregate/disaggregator.py')],
  'property-based testing against integer arithmetic, plain loops and an HTML parser', 'bins that divide the hour; cluster only on well separated levels; the escaping of HTML is not claimed')

P('C32', 'Loads which are read in turns give what each gives alone',
  'However the steps of several lazy loads on the same file are interleaved, with each other, with queries, with abandoned and restarted loads, and whatever the reader does to the chunks it '
  'was given, each load yields the chunks, time frames, look-ahead rows and results which it yields alone. This holds for loads of stores, meters, groups, series, preprocessing chains and '
  'statistics nodes, from one dataset or from several datasets open on the same file with different windows, and for loads which share argument objects.',
  ['schedules', 'histories'], 'all generated schedules of 4-36 steps of 2-4 loads over datasets of 3-4 meters, HDF and CSV, chunk sizes 2-7, resampling, sections, shared preprocessing nodes',
  'the stable tests run one load at a time to its end.',
  ['nilmtk/datastore/hdfdatastore.py', 'nilmtk/datastore/csvdatastore.py', 'nilmtk/elecmeter.py', 'nilmtk/metergroup.py', 'nilmtk/electric.py', 'nilmtk/node.py', 'nilmtk/stats/'],
  [('HDFDataStore.load, CSVDataStore.load', 'nilmtk/datastore/'), ('ElecMeter.load, get_source_node', 'nilmtk/elecmeter.py'), ('MeterGroup.load, combine_chunks_from_generators', 'nilmtk/metergroup.py'),
   ('Node.process of the statistics', 'nilmtk/stats/')],
  'schedule exploration: generated interleavings of generator steps, differential against each load alone',
  'one thread; windows do not change while a load is read')
