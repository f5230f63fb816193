add("P01", "Every sampled cell is accounted for as exactly one value or null",
    "For every column of every profiled table, the reported sample size, null count, null spellings and null row positions are exactly those of the rows given: each cell is either null under the null patterns in force for that column (defaults, user-supplied patterns with their case flag, per-column patterns) or counted as a value, and the two add up to the rows profiled. This holds for any input container, data type, row labels and any history of updates and merges, and the reported sample values are drawn from the column's own non-null values.",
    ["inputs", "configurations", "histories"], "every table, index, null pattern set and update/merge history",
    "Unit tests use a few literal columns; the accounting has to hold for every mix of null spellings, near-misses, index labels, dtypes and batch histories.",
    [PB], [("null detection and base statistics", PB + ":clean_data_and_get_base_stats"), ("merging of base statistics, index shift", PB + ":_update_base_stats")])
add("P02", "Numeric statistics equal the exact statistics of the column's values",
    "For every numeric column (and for the lengths of text cells) the reported minimum, maximum, sum, mean, variance, standard deviation, skewness, kurtosis, zero count and negative count equal the textbook values computed from the profiled non-null cells, up to floating-point rounding, with sample (bias-corrected) or population formulas as configured. This holds whether the values arrive in one call or spread over any number of updates.",
    ["inputs", "histories", "configurations"], "every finite numeric column, every batching, bias correction on or off",
    "Streaming moment formulas are only exercised on a few small arrays; errors appear only for particular batch shapes, signs, magnitudes or degenerate batches.",
    [NS, "dataprofiler/profilers/int_column_profile.py", "dataprofiler/profilers/float_column_profile.py", "dataprofiler/profilers/text_column_profile.py"],
    [("streaming moments", NS + ":_merge_biased_variance/_merge_biased_skewness/_merge_biased_kurtosis"), ("extrema, sums, zero and negative counts", NS + ":_get_min.._get_num_negatives")])
add("P03", "Inferred type, numeric precision, date range and vocabulary match the cells",
    "The reported data type of a column is the first of datetime, integer, float and text that all of its sampled non-null values satisfy, and the per-type match ratios equal the actual fractions. The digit-precision statistics of float columns, the earliest and latest moment and formats of datetime columns, and the character vocabulary of text columns are exactly those of the column's values.",
    ["inputs", "histories"], "every column of cells in any spelling of integers, floats, dates and text",
    "The spelling space (signs, exponents, leading zeros, padding, many date formats, unicode) is unbounded; tests sample a few literals.",
    ["dataprofiler/profilers/column_profile_compilers.py", "dataprofiler/profilers/float_column_profile.py", "dataprofiler/profilers/datetime_column_profile.py", "dataprofiler/profilers/text_column_profile.py", "dataprofiler/profilers/int_column_profile.py"],
    [("type selection", "dataprofiler/profilers/column_profile_compilers.py:selected_data_type"), ("precision", "dataprofiler/profilers/float_column_profile.py:_get_float_precision"), ("date parsing", "dataprofiler/profilers/datetime_column_profile.py:_validate_datetime"), ("vocabulary", "dataprofiler/profilers/text_column_profile.py:_update_vocab")])
add("P04", "Category tallies, uniqueness and column order are exact",
    "For every column the unique count and ratio, the categorical verdict, the reported categories with their counts, the Gini impurity and the unalikeability equal those computed from the column's non-null values. The reported order (constant, ascending, descending or random) is the true order of the values in row order; across two batches or merged profiles a direction survives only if both parts have it (a constant part fits either) and their value ranges do not overlap, and a random part makes the column random for good.",
    ["inputs", "histories"], "every column of values, any batching",
    "Boundary conditions (one unique value, all unique, thresholds, ties, numeric vs string order, batch boundaries) exceed what tests enumerate.",
    ["dataprofiler/profilers/categorical_column_profile.py", "dataprofiler/profilers/order_column_profile.py"],
    [("category counting", "dataprofiler/profilers/categorical_column_profile.py:_update_categories"), ("order tracking", "dataprofiler/profilers/order_column_profile.py:_get_data_order/_merge_order")])
add("P05", "Histogram and quantiles place every value consistently",
    "For every numeric column the reported histogram holds every finite value exactly once in ordered bins spanning exactly the minimum to the maximum, with the requested number of bins when the user fixes it, and each bin's count agrees with the data up to values at the resolution of the internal bins. Quantiles are non-decreasing, stay inside the value range, and together with the median, mode and median absolute deviation agree with the empirical distribution to within the resolution of the internal histogram.",
    ["inputs", "configurations", "histories"], "every finite numeric column, bin method or bin count, quantile count and batching",
    "Binning involves data-dependent rebinning and interpolation; a handful of arrays cannot show that no value is lost, moved or misplaced.",
    [NS, "dataprofiler/profilers/histogram_utils.py"],
    [("binning and rebinning", NS + ":_get_histogram/_assimilate_histogram"), ("quantile interpolation", NS + ":_get_percentile"), ("bin width estimators", "dataprofiler/profilers/histogram_utils.py")])
add("P06", "Profiling in batches equals profiling everything at once",
    "Feeding a table to a profiler in any sequence of batches yields the same report as profiling the whole table in one call: exact for counts, extrema, sums, moments, null positions, types, categories, row statistics and chi-squared results, and structurally consistent (same total, same range) for histograms. Batches may be of any size including empty or all-null ones, may look like different data types, may repeat row labels, and may present the same columns in a different order or letter case.",
    ["inputs", "histories"], "every table and every way of cutting it into consecutive batches",
    "The number of batchings of even one table is exponential; tests use one or two fixed splits.",
    [PB, NS, "dataprofiler/profilers/column_profile_compilers.py"],
    [("incremental update", PB + ":_update_profile_from_chunk"), ("column alignment", PB + ":_get_and_validate_schema_mapping")], technique=T_DIFF)
add("P07", "Merging profiles equals profiling the combined rows",
    "Adding profiles of separate row sets, pairwise in any grouping or as a list, yields the same report as one profile of all the rows: exact for counts, extrema, sums, moments, null counts, types, categories, row statistics and chi-squared results, and total/range preserving for histograms. The merged profile remains a fully working profile that can be reported, updated and merged again, and columns are matched by name rather than position.",
    ["inputs", "histories", "configurations"], "every partition of every table, merge order and later history",
    "Merges are tested on a few hand-picked pairs; asymmetry, empty or degenerate sides, chained merges and merge-then-update histories are not sampled.",
    [PB, NS, "dataprofiler/profilers/profiler_utils.py"],
    [("profile merge", PB + ":StructuredProfiler.__add__"), ("statistics merge", NS + ":_add_helper"), ("list merge", "dataprofiler/profilers/profiler_utils.py:merge_profile_list")], technique=T_DIFF)
add("P08", "Operations leave their inputs, operands and other profiles untouched",
    "Profiling, reporting, saving, diffing and merging never modify the data, options or report arguments handed in, never change the operands' own reports, and never change what a later report, update or merge of the same profile says. A merged profile shares no state with its operands: updating any of them afterwards leaves the others' reports unchanged, and profiles built from one options object do not influence each other.",
    ["inputs", "histories", "configurations"], "every operation sequence over every profile and option set",
    "Aliasing only shows in particular operation orders; tests look at the result of an operation, not at everything it could have disturbed.",
    [PB, NS, "dataprofiler/profilers/helpers/report_helpers.py"],
    [("merge", PB + ":StructuredProfiler.__add__"), ("report preparation", "dataprofiler/profilers/helpers/report_helpers.py:_prepare_report"), ("histogram reporting", NS + ":_histogram_for_profile")], technique=T_STATE)
add("P09", "A saved and reloaded profile is the same profile",
    "Saving a profile (pickle, or JSON for structured profiles) and loading it back yields a profile with an identical report that behaves identically under further updates, merges, diffs and saves. Unsupported formats, unreadable files and failed writes raise an error, and a failed save leaves the profile in memory fully intact.",
    ["inputs", "configurations", "histories", "faults"], "every profile, option set, history, save method and write failure",
    "State that is silently dropped or re-typed on reload shows only for particular options, column names or later operations.",
    [PB, "dataprofiler/profilers/json_encoder.py", "dataprofiler/profilers/json_decoder.py", "dataprofiler/profilers/profiler_options.py"],
    [("save", PB + ":StructuredProfiler.save/_pkl_save_helper/_json_save_helper"), ("load", PB + ":BaseProfiler.load/load_from_dict"), ("JSON encoding", "dataprofiler/profilers/json_encoder.py:ProfileEncoder")], technique=T_FAULT)
add("P12", "A diff states exactly how two reports differ",
    "The difference of two profiles reports, for every statistic, precisely how the two reports differ: numbers are subtracted, labels paired, sets partitioned into first-only/shared/second-only, equal entries marked unchanged, dates given as signed durations, and the t-test, chi-squared test and population stability index equal their textbook values for the two columns. Swapping the profiles mirrors the result, profiles of the same rows do not differ, and columns are only compared when both profiles have the same schema.",
    ["inputs", "histories", "configurations"], "every pair of profiles",
    "Tests diff a few fixed pairs; empty, constant, mixed-type, merged or identically binned operands take different paths.",
    [PB, NS, "dataprofiler/profilers/profiler_utils.py", "dataprofiler/profilers/categorical_column_profile.py", "dataprofiler/profilers/column_profile_compilers.py"],
    [("profile diff", PB + ":StructuredProfiler.diff"), ("difference primitives", "dataprofiler/profilers/profiler_utils.py:find_diff_of_*"), ("PSI and t-test", NS + ":_calculate_psi/_perform_t_test")])
add("P10", "Row statistics describe the rows that were profiled",
    "The reported row count, unique row ratio and duplicate count equal the true number of rows and of distinct rows seen over all updates and merges, exactly or, with the sketching option, within the sketch's error bound and independently of batching and repetition. The ratios of rows with some and with only null cells equal the true fractions of the fully sampled rows, and each of these is absent when its option is disabled.",
    ["inputs", "histories", "configurations"], "every table, row labelling, batching, merging and sampling setting",
    "Row identity must survive reordered columns, repeated or shifted row labels, sampling and sketch merges, whose combinations tests do not enumerate.",
    [PB], [("row statistics update", PB + ":_update_row_statistics"), ("ratios", PB + ":_get_unique_row_ratio/_get_row_has_null_ratio/_get_duplicate_row_count")])
add("P11", "Cross-column statistics match their textbook definitions",
    "The correlation matrix equals the Pearson correlations of the numeric columns (missing cells replaced by the column mean; only the selected columns when a selection is given), the chi-squared matrix equals the p-values of the homogeneity test of the category counts, and the null-replication metrics equal the class priors, sums and means of the other numeric columns split by whether a column is null. Entries for columns to which a statistic does not apply are undefined, and null-free batches or merges, in any column order, give the values of all the rows together.",
    ["inputs", "histories", "configurations"], "every table of numeric, categorical and other columns with nulls, and its batchings and merges",
    "These statistics join data of several columns by row label and are merged incrementally; tests check a few fixed frames.",
    [PB, "dataprofiler/profilers/profiler_utils.py"],
    [("correlation", PB + ":_get_correlation/_merge_correlation_helper"), ("chi-squared", PB + ":_update_chi2, profiler_utils.perform_chi_squared_test_for_homogeneity"), ("null replication", PB + ":_update_null_replication_metrics")])
add("P13", "Every report format and option shows the same facts",
    "For any profile, the serializable, flat, pretty and compact reports carry the same facts as the unformatted one: serializable is valid JSON with equal values, flat lists every leaf under its joined path, pretty only rounds numbers and shortens lists, compact only drops the detailed statistics, and omitted keys (with wildcards) remove exactly the named entries. Requested quantile groups are the matching entries of the full quantile list, and disabling statistics makes exactly those neutral (or absent on request) while every other reported value stays the same.",
    ["inputs", "configurations"], "every profile, output format, omission pattern, quantile grouping and combination of disabled statistics",
    "The product of formats, wildcards, options and column types is far beyond what tests list.",
    [PB, "dataprofiler/profilers/helpers/report_helpers.py", NS],
    [("formatting", "dataprofiler/profilers/helpers/report_helpers.py:_prepare_report/flat_dict"), ("quantile groups", "dataprofiler/profilers/helpers/report_helpers.py:calculate_quantiles"), ("disabled statistics", NS + ":_remove_disabled_stats")], technique=T_DIFF)
add("P14", "Sampling takes the promised rows, the same for all columns, by seed",
    "Profiling samples exactly the requested number of distinct rows of each batch (all rows up to 5000 by default, else the larger of 5000 and a fifth), every column's statistics describe those same rows and no others, and with a required minimum of valid values columns keep sampling in steps, in one common row order, until they have enough or the rows run out. With a fixed seed the sample and the report are reproducible; without one samples vary and every row can be chosen.",
    ["inputs", "configurations", "histories"], "every table, sample size, minimum of valid values, seed and batching",
    "Which rows were sampled is invisible to tests that check single statistics; columns with different null rates sample different amounts.",
    [PB, "dataprofiler/profilers/utils.py", "dataprofiler/settings.py"],
    [("sampling indices", PB + ":StructuredProfiler._update_profile_from_chunk"), ("cleaning until enough", PB + ":StructuredColProfiler.clean_data_and_get_base_stats"), ("shuffling", "dataprofiler/profilers/profiler_utils.py:shuffle_in_chunks")])
add("P15", "Parallel profiling gives the result of serial profiling, whatever fails",
    "Turning multiprocessing on changes nothing in any report: for wide tables profiled in worker processes every statistic equals the one of the single-process run, under every sampling and minimum-sample setting. If a worker fails, a result cannot be transferred, or the pool cannot be created, the affected columns are computed in the main process with the same result and each column is processed exactly once.",
    ["inputs", "configurations", "schedules", "faults"], "every wide table, option set, worker completion order and worker or pool failure",
    "The serial and parallel paths are different code; the suite mocks the pool and never lets a worker die or finish out of order.",
    [PB, "dataprofiler/profilers/profiler_utils.py"],
    [("pool set-up", "dataprofiler/profilers/profiler_utils.py:generate_pool"), ("parallel cleaning and updates", PB + ":StructuredProfiler._update_profile_from_chunk"), ("fallback", PB + ":StructuredProfiler._update_profile_from_chunk (single process set)")], technique=T_FAULT)
add("P16", "A free-text profile counts exactly the characters and words of the text",
    "For any text the profile's samples, empty lines, memory, vocabulary and word counts equal a direct count of the profiled lines (case folding, punctuation stripping, stop words and top-k as configured), whatever the container and its row labels. Batches and merges give the counts of all lines together, saved profiles reload unchanged, and a diff of two text profiles partitions vocabulary and words exactly.",
    ["inputs", "configurations", "histories"], "every list of lines, option set, batching and merge",
    "Unicode case and whitespace, stop words that differ between merged sides and repeated row labels are outside the suite's samples.",
    [PB, "dataprofiler/profilers/unstructured_text_profile.py"],
    [("text counting", "dataprofiler/profilers/unstructured_text_profile.py:TextProfiler"), ("empty lines and sampling", PB + ":UnstructuredProfiler._update_base_stats/_clean_data_and_get_base_stats")])
add("P17", "A graph profile describes exactly the graph's nodes, edges and attributes",
    "For any graph the profile's numbers of nodes and edges, average node degree, attribute names split into continuous and categorical, and largest component size equal those computed from the graph itself. The reported best-fit distribution of each continuous attribute is the one with the lowest likelihood score among the candidates that can be fitted, and saving and reloading keeps the profile.",
    ["inputs", "histories"], "every graph with any mix of numeric edge attributes",
    "The suite profiles a few fixed graphs with homogeneous attributes; partial, constant, or few-valued attributes take other paths.",
    ["dataprofiler/profilers/graph_profiler.py"],
    [("graph statistics", "dataprofiler/profilers/graph_profiler.py:GraphProfiler"), ("distribution fitting", "dataprofiler/profilers/graph_profiler.py:_get_continuous_distribution")])
add("P18", "Delimited files are read cell for cell",
    "A table written with any delimiter, quote character, line end, header position and supported encoding is read back with exactly its column names, rows and cells, from a file, a buffer or a string, repeatedly, and plain comma or tab separated tables with a header are recognised without being told. Selecting columns returns just those, sampling n rows returns that many distinct complete rows of the file with equal chance for each and reproducibly by seed, records and batches contain every row once, and reloading replaces the old file and dialect entirely.",
    ["inputs", "configurations", "histories"], "every table of text cells, dialect, encoding, source and option set",
    "Quoting, encodings, embedded line breaks and sampling combine into far more dialects than the suite's example files.",
    ["dataprofiler/data_readers/csv_data.py", "dataprofiler/data_readers/data_utils.py", "dataprofiler/data_readers/filepath_or_buffer.py"],
    [("reading", "dataprofiler/data_readers/data_utils.py:read_csv_df"), ("row sampling", "dataprofiler/data_readers/data_utils.py:reservoir/rsample"), ("dialect detection", "dataprofiler/data_readers/csv_data.py:_guess_delimiter_and_quotechar/_guess_header_row")])
add("P19", "JSON documents are read without losing or moving any value",
    "Arrays of records, records one per line (blank and broken lines ignored), single nested objects and payloads with metadata are read so that every value of the document appears exactly once, in its own record and under its own (dotted) key, and missing keys read as null. The table, records and JSON text formats, key selection, and reading from files, buffers or strings all carry the same values, and JSON files are recognised as such.",
    ["inputs", "configurations"], "every JSON document of records or nested objects, source and format",
    "Nesting, lists of objects, missing keys and line formats combine without bound; the suite reads a few fixed files and mostly checks their sizes.",
    ["dataprofiler/data_readers/json_data.py", "dataprofiler/data_readers/data_utils.py"],
    [("flattening", "dataprofiler/data_readers/json_data.py:_find_data/_coalesce_dicts/_get_data_as_flattened_dataframe"), ("line reading", "dataprofiler/data_readers/data_utils.py:read_json"), ("record output", "dataprofiler/data_readers/json_data.py:_get_data_as_records")])
add("P20", "Parquet, Avro, text and edge-list files are read faithfully",
    "Parquet and Avro tables are read with exactly their columns, rows and values (nulls as nulls, nested records flattened), rows numbered consecutively whatever the internal grouping, column selection and row sampling returning true parts of the table; text files give back exactly their characters in chunks of the requested size; edge lists give exactly the graph of their source and destination columns with the other columns as edge attributes. Each kind is recognised from a file or buffer without being told, and profiling a reader equals profiling the table it returns.",
    ["inputs", "configurations"], "every table, text or edge list, encoding, grouping, source and option set",
    "The suite reads a few fixed files and mostly checks their sizes, never several row groups with nulls, signed or textual node ids, or odd chunk sizes.",
    ["dataprofiler/data_readers/parquet_data.py", "dataprofiler/data_readers/avro_data.py", "dataprofiler/data_readers/text_data.py", "dataprofiler/data_readers/graph_data.py", "dataprofiler/data_readers/data.py"],
    [("Parquet", "dataprofiler/data_readers/data_utils.py:read_parquet_df/sample_parquet"), ("Avro", "dataprofiler/data_readers/avro_data.py:_load_data_from_file"), ("text", "dataprofiler/data_readers/text_data.py:_get_data_as_text"), ("edge lists", "dataprofiler/data_readers/graph_data.py:_format_data_networkx"), ("detection", "dataprofiler/data_readers/data.py:Data.__new__")])
LB = "dataprofiler/labelers/"
add("P21", "Character labels land on the very characters they were predicted for",
    "Whatever the texts or cells, their lengths, the model's window length, separators, padding and batch size, every character of the input receives the label the model predicted for that character, and each cell receives the label its own characters vote for (none where nothing was predicted). No character is lost, doubled or shifted, entities of a text carry exactly their start and end, and every requested output format describes the same labels in input order.",
    ["inputs", "configurations"], "every list of texts or cells, window length, separator, batch size and output format",
    "Texts are flattened, split, padded and reassembled; off-by-one errors show only for particular lengths and positions the suite does not sample.",
    [LB + "data_processing.py"],
    [("splitting and padding", LB + "data_processing.py:BaseCharPreprocessor/StructCharPreprocessor"), ("reassembly and entities", LB + "data_processing.py:CharPostprocessor/StructCharPostprocessor")])
add("P22", "Pattern and column-name labelers label what their rules match",
    "The pattern-based labeler assigns every character of every text the labels of exactly those patterns that match there (case handling and surroundings as configured) and resolves conflicts by the configured priority or aggregation. The column-name labeler drops the names that are too similar to a known false positive and gives each remaining name, in order, the label of its most similar known name when that similarity exceeds the threshold, with the similarity as confidence.",
    ["inputs", "configurations"], "every text, pattern set, priority and every list of column names",
    "Pattern overlaps, surroundings and similarity ties are unbounded; the suite uses a few literals with mocked scores.",
    [LB + "regex_model.py", LB + "column_name_model.py", LB + "data_processing.py"],
    [("pattern matching", LB + "regex_model.py:predict"), ("priority and aggregation", LB + "data_processing.py:RegexPostProcessor/StructRegexPostProcessor"), ("name similarity", LB + "column_name_model.py:_compare_negative/predict")])
add("P23", "Labelers keep their labels, parameters and predictions across save and edits",
    "A saved and reloaded labeler equals the saved one, has the same labels and parameters and predicts the same. Adding, aliasing or replacing labels and setting parameters changes exactly what was asked, invalid ones are refused without effect, and labelers, their copies and the values their caller passed in never influence each other.",
    ["inputs", "configurations", "histories"], "every labeler, label set, parameter set and order of edits, saves and predictions",
    "Histories of edits and saves over several component types are not enumerated by tests, which check single calls.",
    [LB + "base_data_labeler.py", LB + "base_model.py", LB + "data_processing.py", LB + "character_level_cnn_model.py"],
    [("save and load", LB + "base_data_labeler.py:save_to_disk/load_from_disk"), ("label edits", LB + "base_model.py:set_label_mapping/add_label"), ("parameters", LB + "base_model.py:set_params")], technique=T_STATE)
add("P24", "A profile's data labels summarise the labeler's predictions for its cells",
    "For every column the reported label, averaged confidences and label probabilities are those of the labeler's predictions for exactly the sampled non-null cells, over all updates and merges, up to the configured number of cells. For free text the entity counts and percentages count every character once, every entity the labeler found once and every other word that a separator ends once, and reports, saved profiles and diffs carry those same labels.",
    ["inputs", "configurations", "histories"], "every column or text, labeler, label set, batching, merging and sampling limit",
    "Tests mock the labeler with constant output, so which cells were labelled, how often and with which weight is never seen.",
    ["dataprofiler/profilers/data_labeler_column_profile.py", "dataprofiler/profilers/unstructured_labeler_profile.py"],
    [("column labels", "dataprofiler/profilers/data_labeler_column_profile.py:_update_predictions/label_representation"), ("text labels", "dataprofiler/profilers/unstructured_labeler_profile.py:_update_word_label_counts")], technique=T_STATE)
add("P25", "Validation reports exactly the rows that break a rule",
    "For every table and set of range or list rules the validator reports, per column and rule, exactly the positions of the rows whose value breaks the rule, and accepts nothing malformed as a rule. Validating again, or another table, gives the results of that run alone, and the table and rules are left as they were.",
    ["inputs", "configurations", "histories"], "every table, rule set and order of validations",
    "Boundaries, types, nulls and repeated runs combine beyond the suite's examples.",
    ["dataprofiler/validators/base_validators.py"],
    [("range and list checks", "dataprofiler/validators/base_validators.py:is_in_range/is_in_list"), ("validation", "dataprofiler/validators/base_validators.py:Validator.validate")])
add("P26", "Bounded-memory category counts keep their promised bounds",
    "When categories are counted with the sketch, every value holding at least the configured share of the column is reported, nothing that never occurred is, and no reported count is below the true one or (with few distinct values) different from it; with a top-k limit exactly the most frequent categories are shown with exact counts. With a stop condition the categories are kept until both thresholds are first reached and then dropped with unique count and ratio frozen at that moment. All this holds over any sequence of updates, merges, saves and reloads, and profiles that count in incompatible ways refuse to merge.",
    ["inputs", "configurations", "histories"], "every column, sketch size, share, top-k, stop thresholds and history",
    "The bounds depend on how counts spread over batches and merges; the suite checks a few fixed splits and never saves or updates a merged sketch.",
    ["dataprofiler/profilers/categorical_column_profile.py"],
    [("heavy hitters", "dataprofiler/profilers/categorical_column_profile.py:_get_categories_cms/_merge_categories_cms"), ("stop condition", "dataprofiler/profilers/categorical_column_profile.py:_update_stop_condition")], technique=T_STATE)
PO = "dataprofiler/profilers/profiler_options.py"
add("P27", "Options mean what they name, and accepted options never break profiling",
    "Setting options by full, partial or wildcard path changes exactly the options that path names, unknown or ambiguous ones are refused without effect, presets change what they document, and fresh options always have the defaults. Validation accepts exactly the documented values and combinations, names every offending option, changes nothing, and profiling refuses invalid options but works, leaving them untouched, with every accepted combination.",
    ["inputs", "configurations"], "every path, value and combination of options",
    "The option tree has over a hundred leaves whose combinations tests cannot list.",
    [PO], [("paths", PO + ":BaseOption._set_helper"), ("validation", PO + ":_validate_helper"), ("presets", PO + ":ProfilerOptions")])
add("P28", "Refused operations leave profiles exactly as they were",
    "An update, merge, diff, save or load that is refused (incompatible columns, wrong type, bad argument, differing options, unusable file) raises an error and leaves the profile, the other operand and the caller's data unchanged. Everything done afterwards gives the results it would have given had the refused operation never been tried, and empty batches change nothing.",
    ["inputs", "histories", "faults"], "every profile, refused operation and history around it",
    "Tests check that errors are raised, not that the state before and after is the same, nor what later operations then do.",
    [PB], [("schema checks", PB + ":_get_and_validate_schema_mapping"), ("merge checks", PB + ":_add_error_checks"), ("update checks", PB + ":BaseProfiler.update_profile")], technique=T_STATE)

add("P29", "Plots show exactly what the profile reports",
    "For any profile the plotted histograms are those of the requested numeric columns (all of them by default, in profile order), one titled panel each, with one bar per reported bin of exactly its edges and count. The missing-value plot shades for every column exactly the rows reported null, one colour and legend entry per null spelling, over a background of exactly the profiled rows; invalid requests are refused and nothing to plot is said so.",
    ["inputs", "histories"], "every table, null pattern and choice of columns",
    "Tests compare a few literal plots; the drawing of runs of nulls depends on every gap pattern.",
    ["dataprofiler/reports/graphs.py"], [("missing values", "dataprofiler/reports/graphs.py:plot_col_missing_values"), ("histograms", "dataprofiler/reports/graphs.py:plot_histograms")])
add("P30", "Labeler scores are the true scores of its predictions",
    "For any true and predicted labels the confusion matrix and the precision, recall, F1 and support of every label, their macro (over labels that occur), weighted and micro averages, and the accuracy equal those counted directly, omitting exactly the labels asked to be omitted, and printed reports show those numbers. The score tracked during training over any batches, weights, threshold and averaging equals the score of all batches together.",
    ["inputs", "configurations", "histories"], "every pair of label sequences, label set and batching",
    "Absent, never-predicted and omitted labels combine in ways a few literal matrices do not show.",
    [LB + "labeler_utils.py", LB + "classification_report_utils.py"], [("evaluation", LB + "labeler_utils.py:evaluate_accuracy"), ("averages", LB + "classification_report_utils.py:precision_recall_fscore_support"), ("streaming score", LB + "labeler_utils.py:FBetaScore")])
add("P31", "Data fetched from a URL is exactly what is served, or an error",
    "A document served at an HTTP address is read as the same kind of data with the same content as the same bytes in memory, whatever its framing (declared length, chunks, compression, redirects), and an answer that is an error, is cut off, or comes from a server whose certificate is not trusted raises instead of becoming data, unless the certificate check is switched off. Documents declared or found to be a gigabyte or more are refused, and a cloud storage address reads exactly the object with that bucket and key, with the credentials given in the options before those of the environment.",
    ["inputs", "faults", "configurations"], "every document, framing, cut point, status, bucket and key",
    "Tests replace the network by a mock that yields whole files, so framing, cut-off answers, certificates and object keys are never seen.",
    ["dataprofiler/data_readers/data.py", "dataprofiler/data_readers/data_utils.py"], [("download", "dataprofiler/data_readers/data_utils.py:url_to_bytes"), ("object stores", "dataprofiler/data_readers/data_utils.py:S3Helper"), ("dispatch", "dataprofiler/data_readers/data.py:Data")])
