"""Source of properties.jsonl (python tools/make_manifest.py regenerates it)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))


prop("P01", "A TimeFrame behaves as the set of instants it denotes",
     "Intersection, hull-union, ordering, equality, hashing, emptiness, duration, adjacency, slicing of data and "
     "dictionary round-trips of time frames agree with the sets of instants the frames denote (start included, end "
     "excluded unless marked inclusive), for bounded, half-open, empty and disabled frames in any mix of time zones. "
     "Operations never change their operands, and a frame whose start is not before its end can never be made.",
     ["inputs"], "every pair/list of frames, time zones, resolutions down to 1 ns, DST changes",
     "The tests use a few naive bounded frames; open, empty, disabled, inclusive and mixed-zone frames are not tried.",
     ["nilmtk/timeframe.py"],
     [("TimeFrame operations", "nilmtk/timeframe.py:TimeFrame")],
     ["return values and public attributes of TimeFrame"])

prop("P02", "Splitting, merging and grouping time frames conserves covered time",
     "Splitting a time frame yields adjacent pieces, none longer than the threshold and only the last one shorter, "
     "that exactly cover it; merging a sorted list joins exactly the neighbours that touch or are within the "
     "gap and loses no covered time. A group's intersection is the pairwise set intersection, its uptime "
     "the sum of its durations, and dropping short frames keeps exactly those at least as long as the threshold.",
     ["inputs"], "every list of bounded frames, threshold and gap",
     "Two merge examples are tested; split, group intersection, uptime and boundary thresholds are not.",
     ["nilmtk/timeframe.py", "nilmtk/timeframegroup.py"],
     [("split / split_timeframes / merge_timeframes", "nilmtk/timeframe.py"),
      ("TimeFrameGroup", "nilmtk/timeframegroup.py")],
     ["return values"])

prop("P03", "Loading delivers exactly the stored rows of window and section",
     "For every store type, loading a table delivers, in order and with unchanged values, exactly the stored rows "
     "that lie in the store's window and the requested sections, with exactly the requested columns, whatever the "
     "chunk size (consecutive chunks of one section may repeat only their common boundary row). A section without "
     "data delivers an empty frame, and a missing table raises KeyError.",
     ["inputs", "configurations"], "every table, window, section list, column list and chunk size; HDF5, temporary and CSV stores",
     "One regular 1 s table, three sections and one chunk size are tested; edges between samples and chunk boundaries are not.",
     ["nilmtk/datastore/hdfdatastore.py", "nilmtk/datastore/csvdatastore.py", "nilmtk/datastore/tmpdatastore.py"],
     [("HDFDataStore.load", "nilmtk/datastore/hdfdatastore.py"), ("CSVDataStore.load", "nilmtk/datastore/csvdatastore.py")],
     ["chunks yielded by load()"])

prop("P04", "Chunk time frames, look-ahead rows and table extents are truthful",
     "Every chunk a store delivers carries a time frame that covers its rows and stays inside the requested section "
     "and window; in HDF5 stores the frames of a section's chunks tile it without gap. When look-ahead is requested, "
     "the chunk carries exactly the next rows stored after its last row (fewer only at the end of the table), and "
     "the extent reported for a table is its first-to-last sample span cut to the window.",
     ["inputs", "configurations"], "every table, window, section list, chunk size and look-ahead length",
     "One look-ahead of ten rows on a regular table is tested.",
     ["nilmtk/datastore/hdfdatastore.py", "nilmtk/datastore/csvdatastore.py"],
     [("_timeframe_for_chunk, look_ahead", "nilmtk/datastore/hdfdatastore.py"), ("get_timeframe", "nilmtk/datastore/*.py")],
     ["chunk.timeframe, chunk.look_ahead, get_timeframe()"])

prop("P05", "A data store keeps what was written, across any history and reopening",
     "After any sequence of put, append, remove, metadata saves and closing/reopening, a data store holds exactly the "
     "tables and metadata that a simple model of that sequence predicts: put replaces, append adds at the end, remove "
     "deletes only its key, metadata is returned as last saved, and the listed children are exactly those present. "
     "A temporary store's file disappears when it is closed.",
     ["histories", "configurations"], "every history of store operations on HDF5, temporary and CSV stores",
     "The tests only read from prepared files.",
     ["nilmtk/datastore/hdfdatastore.py", "nilmtk/datastore/csvdatastore.py", "nilmtk/datastore/tmpdatastore.py",
      "nilmtk/datastore/datastore.py", "nilmtk/datastore/key.py"],
     [("put/append/remove/save_metadata/elements_below_key", "nilmtk/datastore/*.py")],
     ["store contents after each operation and after reopening"])

prop("P06", "Converting a data store loses nothing",
     "Converting any data store into another store of either type reproduces every building, meter table, sample, "
     "column and metadata entry, leaves the input unchanged, and converting back yields the original again.",
     ["inputs", "configurations"], "every store content and direction HDF5<->CSV",
     "One fixed file is converted and only a subset of it is compared.",
     ["nilmtk/datastore/datastore.py"], [("convert_datastore", "nilmtk/datastore/datastore.py")],
     ["contents of the output store"])

prop("P07", "Measurement selection picks exactly the matching columns",
     "Asking a meter for a physical quantity and/or AC type delivers exactly the meter's columns that match: all "
     "columns by default, the best available AC type when 'best' is asked, and an error when nothing matches. Meter "
     "measurement listings reflect the device's declared measurements, and measurement ordering/selection helpers "
     "follow their documented preference.",
     ["inputs", "configurations"], "every set of device measurements and request",
     "A handful of combinations are tested, and those tests cannot run without the metadata package.",
     ["nilmtk/elecmeter.py", "nilmtk/measurement.py"],
     [("_convert_physical_quantity_and_ac_type_to_cols, available_*", "nilmtk/elecmeter.py"),
      ("select_best_ac_type", "nilmtk/measurement.py")],
     ["columns of loaded data"])

prop("P08", "Resampling on load puts the right value on a regular grid",
     "Loading with a sample period puts data on the regular grid of that period, each grid cell holding the mean "
     "(or requested aggregate) of the samples in it; empty cells are filled forward over at most the meter's maximum "
     "sample period and the rest of a longer gap stays missing. The cells are the same whether the data is read in "
     "one piece or in sections aligned to the grid, and the caller's arguments are left as they were.",
     ["inputs", "configurations"], "every irregular series, gap pattern, period and chunking",
     "No test checks resampled values.",
     ["nilmtk/elecmeter.py", "nilmtk/utils.py"], [("load_series / resampling", "nilmtk/elecmeter.py"), ("safe_resample", "nilmtk/utils.py")],
     ["loaded series"])

prop("P09", "A meter group's load is the sum of its meters",
     "Loading a group delivers, at every grid instant, the sum of its meters' resampled values (the mean for voltages, "
     "frequencies, power factors and other quantities that do not add, a nested group counting as one member), a meter without data at an instant "
     "contributing nothing and an instant without any data staying missing. Nesting meters whose values add, repeated reads, the order "
     "of the meters and how the time span is cut into chunks do not change the result; a data frame of the meters has "
     "one such column per meter. The time frame of each chunk covers its samples.",
     ["inputs", "configurations"], "every set of meters with differing extents, gaps, columns, DST changes and chunk lengths",
     "The tests on groups need metadata that is not installed; they use one regular house.",
     ["nilmtk/metergroup.py"], [("MeterGroup.load, dataframe_of_meters", "nilmtk/metergroup.py")],
     ["loaded frames"])

prop("P10", "Total energy equals the integral of the stored samples",
     "The energy a meter reports per AC type is the left-Riemann integral of its power samples with every interval "
     "capped at the maximum sample period (or the sum of energy readings, or the rise of a cumulative register, which "
     "are preferred in the opposite order), within the window and requested sections. The energy of a group is the sum over its meters; "
     "with sections or chunks the parts add up.",
     ["inputs", "configurations"], "every sample spacing, gap, NaN pattern, section list, chunk size and window",
     "A few regular frames are tested.",
     ["nilmtk/stats/totalenergy.py", "nilmtk/stats/totalenergyresults.py", "nilmtk/elecmeter.py", "nilmtk/metergroup.py"],
     [("get_total_energy", "nilmtk/stats/totalenergy.py"), ("total_energy", "nilmtk/elecmeter.py, nilmtk/metergroup.py")],
     ["returned energies"])

prop("P11", "Good sections are exactly the maximal gap-free runs of samples",
     "The good sections of a meter are exactly the maximal runs of samples in which neighbouring samples are at most "
     "the maximum sample period apart, each from its first to its last sample; the answer does not depend on the chunk "
     "size, and within requested sections or a window it is the answer for the samples lying there. Uptime is the total "
     "length of the good sections.",
     ["inputs", "configurations"], "every sample spacing, chunk boundary, section list and window",
     "Three hand-made gap patterns are tested with one chunking.",
     ["nilmtk/stats/goodsections.py", "nilmtk/stats/goodsectionsresults.py", "nilmtk/elecmeter.py"],
     [("get_good_sections, GoodSections.process", "nilmtk/stats/goodsections.py")],
     ["returned time frames"])

prop("P12", "The dropout rate is the share of expected samples that are missing",
     "The dropout rate of a meter is one minus the ratio of present samples to those expected at its sample period over "
     "the covered time, the chunks and sections being weighted by their number of samples; it is undefined only where "
     "nothing was measured. Ignoring gaps restricts it to the good sections, and a group reports the mean over its meters.",
     ["inputs", "configurations"], "every gap pattern, chunking, section list and window",
     "Only the plain function on three frames is tested.",
     ["nilmtk/stats/dropoutrate.py", "nilmtk/stats/dropoutrateresults.py", "nilmtk/elecmeter.py", "nilmtk/metergroup.py"],
     [("get_dropout_rate, DropoutRateResults", "nilmtk/stats/dropoutrate.py")],
     ["returned rates"])

prop("P13", "A cached statistic is indistinguishable from a freshly computed one",
     "Whatever statistics were requested before (energy, good sections, dropout rate, with any sections, window, columns, "
     "chunk size or dataset), a request gives the same answer as with an empty cache. After clear_cache on a meter, group "
     "or dataset the answers reflect the data now stored, and the cached statistics of other meters keep their values.",
     ["histories", "inputs", "configurations"], "every history of statistics requests over any datasets sharing the cache",
     "One test requests total energy twice with the same arguments.",
     ["nilmtk/elecmeter.py", "nilmtk/results.py", "nilmtk/stats/totalenergyresults.py", "nilmtk/stats/goodsectionsresults.py", "nilmtk/stats/dropoutrateresults.py"],
     [("ElecMeter._get_stat_from_cache_or_compute, key_for_cached_stat, clear_cache", "nilmtk/elecmeter.py"),
      ("Results.import_from_cache, export_to_cache", "nilmtk/results.py")],
     ["answers of the statistics methods", "keys of STATS_CACHE"])

prop("P14", "Processing pipelines apply each node to every chunk and honour requirements",
     "Clip delivers every value limited to the lower and upper limit given by the node or the measurement's metadata and leaves "
     "all else (missing values, index, time frames, other columns, stored data) unchanged; nodes listed for loading are applied "
     "to every chunk in order, before any resampling. A pipeline runs exactly when the metadata and upstream nodes meet the requirements of all its "
     "nodes, never changing that metadata, and a histogram gathered over chunks equals that of all samples.",
     ["inputs", "configurations"], "every chunk stream, limit combination, node chain and requirement dictionary",
     "Only the requirement matcher is tested, on nine hand-written dictionaries.",
     ["nilmtk/node.py", "nilmtk/preprocessing/", "nilmtk/stats/histogram.py", "nilmtk/elecmeter.py"],
     [("Clip.process, _find_limits", "nilmtk/preprocessing/clip.py"), ("Apply.process", "nilmtk/preprocessing/apply.py"),
      ("Node.check_requirements, find_unsatisfied_requirements", "nilmtk/node.py"),
      ("histogram_from_generator", "nilmtk/stats/histogram.py")],
     ["chunks leaving each node", "UnsatisfiedRequirementsError"])

prop("P15", "Energy shares, remainders and splits agree with the meters' energies",
     "Energy per meter, the fraction of each meter, the proportion of energy submetered, of mains and of upstream, the unmetered "
     "remainder of a wiring tree, the average energy per period and the top-k selection (with the rest grouped as remainder) are "
     "those of the meters' total energies over the documented sections, and the original group is not changed. A train/test "
     "split date divides the mains' energy in the requested fraction and lies within the data.",
     ["inputs", "configurations"], "every building, wiring, mix of AC types, gaps, sections and period",
     "One fixed building is tested for proportion submetered only.",
     ["nilmtk/metergroup.py", "nilmtk/electric.py"],
     [("energy_per_meter, fraction_per_meter, proportion_of_energy_submetered, select_top_k, train_test_split", "nilmtk/metergroup.py"),
      ("proportion_of_energy, proportion_of_upstream_total_per_meter, average_energy_per_period", "nilmtk/electric.py")],
     ["returned values, groups and dates"])

prop("P16", "Reported activity is exactly the on/off behaviour of the samples",
     "when_on marks exactly the samples at or above the on-power threshold, and activations are exactly the fully observed on-runs "
     "after joining runs separated by less than the minimum off duration and dropping those shorter than the minimum on "
     "duration, each holding the samples of its run. Switch times and simultaneous switches are the jumps above the "
     "threshold, and an activity histogram counts every 'on' sample in its bin, across chunks and clock changes.",
     ["inputs", "configurations"], "every power series, threshold, duration, border, bin and chunk size",
     "The tests use one hand-written series and a single fixed histogram.",
     ["nilmtk/electric.py", "nilmtk/elecmeter.py", "nilmtk/metergroup.py"],
     [("get_activations, Electric.when_on, activation_series, activity_histogram", "nilmtk/electric.py"),
      ("ElecMeter.switch_times", "nilmtk/elecmeter.py"), ("MeterGroup.simultaneous_switches", "nilmtk/metergroup.py")],
     ["returned series, activations, switch times and counts"])

prop("P17", "Opening a dataset yields exactly its buildings, meters and wiring",
     "Opening a dataset produces exactly the buildings, meters, devices, appliances, multi-meter groups and disabled meters its metadata "
     "declares, every appliance attached to its meters; mains, submeters, upstream meters (meter 0 standing for the enabled mains), the wiring "
     "graph and the extent of a building follow from them. Datasets opened before, beside or again do not change the answer, and "
     "swapping to the alternative mains and back restores the building.",
     ["inputs", "histories"], "every dataset metadata, wiring tree, store type and order of opening",
     "Two small fixed buildings are tested.",
     ["nilmtk/dataset.py", "nilmtk/building.py", "nilmtk/metergroup.py", "nilmtk/elecmeter.py", "nilmtk/appliance.py"],
     [("MeterGroup.import_metadata, wiring_graph, mains, use_alternative_mains", "nilmtk/metergroup.py"),
      ("ElecMeter.upstream_meter, global_meter_group", "nilmtk/elecmeter.py"), ("DataSet.import_metadata", "nilmtk/dataset.py")],
     ["public attributes and methods of the objects"])

prop("P18", "Queries return exactly the meters that match, once each",
     "Looking up meters by instance, id, id list, group id, appliance name or dictionary returns the one matching meter or group and "
     "raises otherwise; selections by meter or appliance metadata (synonyms included, criteria ANDed, lists ORed) "
     "return every matching meter exactly once. Unions, id lists, sorting, grouping by appliance metadata, labels, equality and hashing of meters, "
     "groups and appliances agree with their identities and change no operand.",
     ["inputs"], "every building, key form and criterion",
     "A handful of look-ups on one fixed building are tested.",
     ["nilmtk/metergroup.py", "nilmtk/elecmeter.py", "nilmtk/electric.py", "nilmtk/appliance.py", "nilmtk/hashable.py"],
     [("MeterGroup.__getitem__, select, from_list, groupby, union, __eq__, __hash__", "nilmtk/metergroup.py"),
      ("Appliance.matches", "nilmtk/appliance.py"), ("ElecMeter.matches", "nilmtk/elecmeter.py")],
     ["returned meters and raised errors"])

prop("P19", "Disaggregation metrics equal their formulas over exactly aligned samples",
     "Aligning two meters pairs, at every instant of the master's good sections, the master's sample with the other meter's "
     "sample of the same instant, losing no such pair (but at most the last of a section) and inventing none. Error in assigned "
     "energy, fraction assigned correctly, mean normalised error, RMS error, F1 score and the RMSE of frames equal their formulas over "
     "these pairs, meter by meter, whatever the order of the meters, chunking and gaps.",
     ["inputs", "configurations"], "every pair of prediction and truth groups, sampling, gaps and sections",
     "One fixed file is scored against itself, so that misalignment cannot show.",
     ["nilmtk/metrics.py", "nilmtk/electric.py", "nilmtk/utils.py"],
     [("align_two_meters", "nilmtk/electric.py"), ("metrics", "nilmtk/metrics.py"), ("compute_rmse", "nilmtk/utils.py")],
     ["aligned chunks and metric values"])

prop("P20", "Each loss function returns its defined error for every pair of series",
     "Each experiment loss (MAE, RMSE, F1 with the 10 W on-threshold, relative error, R2, NDE, NEP) equals its defining "
     "formula for every ground truth and prediction of equal length, whether given as series or arrays. A perfect "
     "prediction scores perfectly, a wrong one does not, the order of the samples does not matter and the arguments are not changed.",
     ["inputs"], "every pair of non-missing power series",
     "No test covers the losses.",
     ["nilmtk/losses.py"], [("loss functions", "nilmtk/losses.py")], ["return values"])

prop("P21", "Results objects combine chunks, meters and cached rows without loss",
     "After any history of appends and updates a results object holds exactly the accepted rows, rejects overlapping time frames "
     "and foreign types, and its combined answer is the sum (energy), sample-weighted mean (dropout rate) or the joined "
     "sections (good sections) of the rows whatever their order. Unifying two meters adds, averages or intersects row by row "
     "and refuses different time frames; exporting to the cache and importing requested sections returns exactly those rows.",
     ["histories", "inputs"], "every history of append/update/unify/import over any time frames and zones",
     "Seven hand-written appends to one class are tested.",
     ["nilmtk/results.py", "nilmtk/stats/totalenergyresults.py", "nilmtk/stats/goodsectionsresults.py", "nilmtk/stats/dropoutrateresults.py"],
     [("Results.append, update, unify, import_from_cache", "nilmtk/results.py"), ("GoodSectionsResults.combined", "nilmtk/stats/goodsectionsresults.py")],
     ["combined(), per_period(), timeframes(), raised errors"])

prop("P22", "Combinatorial optimisation picks the best combination of learnt states",
     "For every mains sample combinatorial optimisation assigns each appliance one of its learnt states so that no other "
     "combination has a total closer to the mains, with one prediction per mains chunk on the chunk's own index. The "
     "states learnt for an appliance are sorted, distinct integers that include 'off', lie within the range of its "
     "readings above 10 W, are no more than allowed, and are only 'off' when fewer than 20 such readings exist.",
     ["inputs", "histories"], "every set of appliances, training history and mains signal",
     "The tests cover nearest-value search on one array only.",
     ["nilmtk/disaggregate/combinatorial_optimisation.py", "nilmtk/feature_detectors/cluster.py", "nilmtk/utils.py"],
     [("CO", "nilmtk/disaggregate/combinatorial_optimisation.py"), ("cluster", "nilmtk/feature_detectors/cluster.py"),
      ("find_nearest", "nilmtk/utils.py")], ["predictions, learnt states"])

prop("P23", "The FHMM predicts the most likely joint states of its appliances",
     "Combining appliance models gives joint states whose start and transition probabilities are the products, and whose "
     "mean power is the sum, of the appliances'; sorting an appliance's states moves all their parameters together, and "
     "decoding a joint state returns exactly the appliance states it stands for. Predictions follow a most likely "
     "joint state sequence for the mains, each appliance always at the power of one of its states.",
     ["inputs"], "every set of appliance models and mains signal",
     "The tests sort one fixed set of parameters.",
     ["nilmtk/disaggregate/fhmm_exact.py", "nilmtk/legacy/disaggregate/fhmm_exact.py"],
     [("create_combined_hmm, decode_hmm, sort_learnt_parameters", "nilmtk/disaggregate/fhmm_exact.py")],
     ["combined model parameters, predictions"])

prop("P24", "The Mean model predicts the mean of everything it was trained on",
     "After any history of training calls, saves and reloads, the Mean model predicts for every sample of every mains "
     "chunk, on the chunk's own index, the mean of all present values the appliance was trained on, however they were "
     "split into calls. Clearing a disaggregator's checkpoints deletes exactly the .h5 files with its own prefix in the "
     "working directory, and nothing if it has no prefix.",
     ["histories", "inputs"], "every training history, missing-value pattern and directory content",
     "No test covers it.",
     ["nilmtk/disaggregate/mean.py", "nilmtk/disaggregate/disaggregator.py"],
     [("Mean", "nilmtk/disaggregate/mean.py"), ("clear_model_checkpoints", "nilmtk/disaggregate/disaggregator.py")],
     ["predictions, directory contents"])

prop("P25", "Steady states, transitions and on/off pairs follow the Hart 85 rules",
     "The detected steady states and transitions of a power signal are exactly those the documented state and noise "
     "thresholds imply (times, levels and sizes, with one or two measurements, and none when nothing switches). Every "
     "transition belongs to at most one pair, whose ON precedes its OFF and whose sum is within tolerance, nearest ones "
     "being paired first; Hart85 predicts per mains chunk each appliance on exactly between its detected ON and OFF, and "
     "the centres it learns are levels of the pairs (mean of ON and OFF size), no more than there are distinct levels.",
     ["inputs"], "every power signal, threshold, tolerance and buffer size",
     "No test covers edge detection or pairing.",
     ["nilmtk/feature_detectors/steady_states.py", "nilmtk/disaggregate/hart_85.py", "nilmtk/legacy/disaggregate/hart_85.py"],
     [("find_steady_states", "nilmtk/feature_detectors/steady_states.py"), ("PairBuffer, Hart85", "nilmtk/disaggregate/hart_85.py"), ("hart85_means_shift_cluster", "nilmtk/feature_detectors/cluster.py")],
     ["returned frames, pairs and predictions"])

prop("P26", "Experiments train, test and score every method on exactly aligned data",
     "In an experiment every method is trained on, and tested against, exactly the resampled mains and appliance samples of the "
     "requested datasets, buildings and windows that are present for all of them, appliances in the requested order; "
     "chunk-wise training sees aligned data only. Stored truth and predictions carry that index, and each error is the chosen loss of "
     "one method and appliance, filed under the key of its dataset, building, chunk and metric.",
     ["inputs", "configurations"], "every set of datasets, buildings, windows, gaps, appliances, methods, metrics and chunk size",
     "No test runs an experiment.",
     ["nilmtk/api.py"],
     [("train_jointly, train_chunk_wise, test_jointly, test_chunk_wise, dropna, predict, compute_loss", "nilmtk/api.py")],
     ["frames handed to a disaggregator", "errors, errors_keys, gt_overall, pred_overall"])

prop("P27", "A window makes a dataset look as if only the samples inside existed",
     "After a window is set on a dataset, every answer of its meters and groups (loading, energies, good sections, uptime, "
     "activations, switch times, correlations) equals the answer of a dataset that holds only the rows in [start, end). Bounds may be "
     "naive (the dataset's local time) or strings with a zone, one-sided or missing; a later window replaces the earlier one, and "
     "removing it restores the original answers.",
     ["inputs", "histories"], "every window and sequence of windows, time zone, clock change and gap pattern",
     "Tests set a window once and look at the bounds only.",
     ["nilmtk/dataset.py", "nilmtk/elecmeter.py", "nilmtk/datastore/datastore.py"],
     [("set_window", "nilmtk/dataset.py"), ("window", "nilmtk/datastore/datastore.py")],
     ["all public statistics under a window"])

prop("P28", "Queries leave stored data, operands and arguments unchanged",
     "No query (loading, statistics, time frame algebra, losses, clustering, edge detection, prediction, plotting, selection) changes "
     "its operands, the caller's arguments, the window, the metadata or the data set's files; only statistics caches may grow. "
     "The same query therefore gives the same answer again, whatever queries came before, and changing a returned chunk or "
     "metadata dictionary changes nothing stored.",
     ["histories"], "every sequence of queries and every argument",
     "Tests call each function once on throw-away arguments.",
     ["nilmtk/timeframe.py", "nilmtk/timeframegroup.py", "nilmtk/datastore", "nilmtk/electric.py", "nilmtk/metergroup.py",
      "nilmtk/stats", "nilmtk/disaggregate", "nilmtk/losses.py"],
     [("union, intersection, split, merge_timeframes", "nilmtk/timeframe.py"), ("load", "nilmtk/datastore/hdfdatastore.py"),
      ("load, _get_stat_from_cache_or_compute", "nilmtk/elecmeter.py"), ("select, load, dataframe_of_meters", "nilmtk/metergroup.py")],
     ["fingerprints of arguments, metadata, windows and files", "repeated answers"])

prop("P29", "Dataset converters keep every raw reading",
     "Converting a raw data set (REDD, UK-DALE, REFIT, DRED, AMPds, ECO, COMBED, GREEND, iAWE, IDEAL, SMART, HIPE, HES, Dataport, "
     "DEDDIAG) gives exactly one table per raw channel, under the building and meter number of that channel. Each table holds every "
     "reading of its channel (iAWE: the one-minute means) at its true instant, in watts, in time order, in the data set's time zone; nothing is lost, invented, "
     "duplicated or attributed to another meter. The result does not depend on the order in which the file system lists files, and "
     "the working directory and the raw files stay as they were.",
     ["inputs"], "every raw directory in the layout the converter documents",
     "The data sets are not in the repository, so no test runs a converter.",
     ["nilmtk/dataset_converters"],
     [("_convert, _load_csv", "nilmtk/dataset_converters/redd/convert_redd.py"), ("_convert_one_sec_data", "nilmtk/dataset_converters/ukdale/convert_ukdale.py"),
      ("convert_hes", "nilmtk/dataset_converters/hes/convert_hes.py"), ("write_meter_data", "nilmtk/dataset_converters/dataport/csv_converter.py")],
     ["tables of the output store against the raw files", "extents of the opened dataset"])

prop("P30", "Correlation, entropy and mutual information equal their definitions",
     "The correlation of two meters (and every entry of the pairwise matrix) is the Pearson coefficient of their paired samples, "
     "symmetric, one with itself and independent of chunking and gaps; entropy and mutual information equal the "
     "k-nearest-neighbour estimates of the samples in the requested base; vampire power is the lowest reading. The spectrum, lag and power "
     "plots draw exactly these samples.",
     ["inputs", "configurations"], "every set of meters with common time stamps, gaps, neighbour count, base and chunk size",
     "One correlation of regular data is tested; gaps and the estimators are not.",
     ["nilmtk/electric.py", "nilmtk/metergroup.py"],
     [("correlation, entropy, mutual_information, plot_spectrum, plot_lag", "nilmtk/electric.py"),
      ("pairwise_correlation, entropy_per_meter", "nilmtk/metergroup.py")],
     ["returned values", "data of drawn lines"])

prop("P31", "A disaggregation run stores complete, well-described predictions",
     "Disaggregating mains into an output store (CO, FHMM, Hart85 of the legacy API) writes, for every mains chunk that is long "
     "enough and for no other, the mains readings unchanged as meter 1 and one prediction per trained meter at exactly the mains' "
     "instants, always one of the learnt powers. The metadata saved makes the store open as a dataset with the same building, meter "
     "instances, appliances, names, sample period and the extent of the disaggregated frames. A model exported and imported again "
     "predicts the same, and untrained models, second trainings and too short chunks are refused.",
     ["inputs", "histories"], "every house, sample period, set of chunks and list of trained meters",
     "The tests run one algorithm on one building and only check that nothing fails.",
     ["nilmtk/legacy/disaggregate"],
     [("_save_metadata_for_disaggregation", "nilmtk/legacy/disaggregate/disaggregator.py"),
      ("disaggregate, export_model, import_model", "nilmtk/legacy/disaggregate/combinatorial_optimisation.py"),
      ("disaggregate", "nilmtk/legacy/disaggregate/fhmm_exact.py"), ("disaggregate", "nilmtk/legacy/disaggregate/hart_85.py")],
     ["tables and metadata of the output store", "saved metadata dictionaries", "raised errors"])

prop("P32", "Plots draw exactly the data",
     "Plots of a series, of time frame groups, good sections and dropout rates, of a meter (power, histograms, activity, "
     "autocorrelation), of a group (lines, sum, area, energy bar, Sankey, good sections, wiring, several axes) and of a dataset with one "
     "or more buildings succeed, and their lines, bars, rectangles and flows hold exactly the values, instants and energies of the data, "
     "in the requested unit. Each is on the axes it was given, and each label or title is that of the meter or building drawn; the plotting "
     "helpers set exactly the sizes and fonts asked for.",
     ["inputs", "configurations"], "every series, group, meter and dataset, and every option of its plot",
     "The repository has no test that looks at a plot.",
     ["nilmtk/plots.py", "nilmtk/electric.py", "nilmtk/metergroup.py", "nilmtk/dataset.py", "nilmtk/timeframegroup.py", "nilmtk/stats"],
     [("plot_series, plot_pairwise_heatmap, latexify, format_axes", "nilmtk/plots.py"), ("plot", "nilmtk/timeframegroup.py"),
      ("plot, plot_power_histogram, plot_activity_histogram", "nilmtk/electric.py"),
      ("plot, plot_good_sections, plot_multiple", "nilmtk/metergroup.py"), ("plot_good_sections", "nilmtk/dataset.py")],
     ["data of the drawn matplotlib artists", "labels and titles"])

prop("P33", "Shared helper objects and functions keep their documented contracts",
     "Objects with an identifier are equal, unequal, hashed and printed by class and identifier alone; a method that inherits its "
     "documentation shows its closest documented ancestor's text and still runs normally on every instance. The tree, list, string, "
     "time stamp, time zone, duration, data store and HTML helpers return exactly what their documentation says for every valid input, "
     "raise the documented error otherwise, and never change their arguments unless that is their purpose.",
     ["inputs"], "every input of every helper",
     "The helpers have no tests of their own.",
     ["nilmtk/utils.py", "nilmtk/hashable.py", "nilmtk/docinherit.py", "nilmtk/consts.py", "nilmtk/exceptions.py"],
     [("Hashable", "nilmtk/hashable.py"), ("DocInherit", "nilmtk/docinherit.py"),
      ("tree_root, flatten_2d_list, simplest_type_for, container_to_string, tz_localize_naive, convert_to_timestamp, "
       "timedelta64_to_secs, offset_alias_to_seconds, most_common, get_datastore, dict_to_html", "nilmtk/utils.py")],
     ["return values and raised errors"])

prop("P34", "Descriptions and labels state the real figures and names",
     "Describing a group, building or dataset gives one column per building whose counts, sample periods, time frame, duration, "
     "uptime, energy, dropout and metadata entries equal those computed separately from the samples in the window and the metadata. "
     "Every label and printed form of a meter, group or appliance names exactly what is attached: its name, site meter, dominant or "
     "listed appliances, instance and room. Per-meter tables have one correctly named entry per meter in the stated order.",
     ["inputs"], "every dataset, window, metadata and naming of meters and appliances",
     "No test describes a dataset or prints labels of random meters.",
     ["nilmtk/metergroup.py", "nilmtk/building.py", "nilmtk/dataset.py", "nilmtk/elecmeter.py", "nilmtk/appliance.py", "nilmtk/utils.py"],
     [("MeterGroup.describe, label, get_labels, __repr__, proportion_of_upstream_total_per_meter, call_method_on_all_meters", "nilmtk/metergroup.py"),
      ("Building.describe", "nilmtk/building.py"), ("DataSet.describe", "nilmtk/dataset.py"),
      ("ElecMeter.label, dominant_appliance", "nilmtk/elecmeter.py"), ("Appliance.label", "nilmtk/appliance.py"),
      ("compute_rmse", "nilmtk/utils.py")],
     ["entries of descriptions", "labels and printed forms"])

prop("P35", "Crashes and failures never corrupt stored data or later answers",
     "Once a put, append, remove or metadata save has returned, ending the process at that point, however abruptly, loses nothing: the "
     "reopened store holds exactly the acknowledged tables and metadata and can be used further. A read that fails or is abandoned "
     "half-way, a pipeline or statistic interrupted by an exception, or an operation the store refuses changes no other table, metadata or "
     "window, and every later load and statistic gives the same answer as if it had never happened.",
     ["crash_points", "fault_sequences", "histories"], "every history of store operations, crash point between two of them, failing read and abandoned stream",
     "Tests never kill the process, inject failures or abandon a stream.",
     ["nilmtk/datastore/hdfdatastore.py", "nilmtk/datastore/csvdatastore.py", "nilmtk/electric.py", "nilmtk/elecmeter.py", "nilmtk/metergroup.py"],
     [("HDFDataStore.put, append, remove, save_metadata, load", "nilmtk/datastore/hdfdatastore.py"),
      ("CSVDataStore.put, append, remove, save_metadata, load", "nilmtk/datastore/csvdatastore.py"),
      ("ElecMeter._get_stat_from_cache_or_compute", "nilmtk/elecmeter.py"), ("MeterGroup.load", "nilmtk/metergroup.py")],
     ["tables and metadata after a crash", "loads and statistics after a failure"])
