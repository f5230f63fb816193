#!/usr/bin/env python3
"""Write the "fixed" entries of known_findings.json from the fix: commits of /repo (hash looked up by subject)."""
import json
import subprocess

T = """
P02|keep a running minimum or maximum of 0|[-3..0] then [5] in a second batch reported a maximum below 0: `if running_max` dropped an exact 0
P06|merge precision variance with the sample size|float precision variance of batched data used the size after the batch
P03|do not count the digits of an upper-case exponent|"1.5E10" was given 4 significant figures
P01|locate non-null cells by position|tables with repeated or unsorted row labels lost, doubled or reordered cells
P07|keep the string/text type of a merged text column|merged text columns forgot whether they are string or text
P07|carry the stored histogram when only one merged side has one|merging with a column without numbers lost the histogram
P07|let a merged histogram absorb later batches|updating a merged profile failed
P07|report the histogram of merged profiles with a user-set bin count|reporting a merged profile with a fixed bin count failed
P06|make row hashes independent of the order of a batch's columns|a permuted batch counted equal rows as different
P06|accept re-cased column names in later batches|a later batch with re-cased column names failed midway
P01|apply the regex flag given with each null value|flags of null patterns were ignored
P01|apply per-column null values to the matching column|a permuted batch used another column's null values
P08|do not merge row sketches into the left operand|a + b changed the row sketch of a
P11|keep the cleaned samples intact when correlating|correlating replaced nulls in the samples used by other statistics
P11|forget the index shift of earlier batches|rows of several batches were joined at wrong positions
P12|allow diffing categories with an empty column|diff with an empty column divided by zero
P08|leave the caller's omit_keys alone|a compact report extended the caller's list
P11|accumulate null replication sums of integer batches|sums of integer batches failed to accumulate
P11|align columns and skip datetimes when merging null replication|merging mixed up columns or failed on datetimes
P11|merge correlations of aligned columns|correlations of merged profiles were attributed to wrong columns
P11|do not fail on batches without rows to correlate|a batch without complete rows failed
P12|diff columns whose type and category statistics are not shared|diff of such columns failed
P11|allow correlation updates after invalid values|an undefined correlation made later updates fail
P08|do not alias the stored histogram when reporting|changing a report changed the profile
P09|restore null value flags of options loaded|flags of null patterns were lost in JSON
P09|keep column names and null replication metrics of profiles loaded|profiles loaded from JSON could not be updated
P09|pickle the correlation matrix and null replication|these were lost in pickles
P09|restore the data labelers when saving fails|a failed save left the profile without labelers
P10|sketch rows whatever the names of their columns|column names that are not strings broke the row sketch
P07|do not report the losses of a merged histogram|an internal entry appeared in reports of merged profiles
P12|relate the null ratio of a column to all of its samples|diff related nulls to the non-null count
P12|compare the same bins of both histograms in the PSI|the PSI compared different bins
P12|format diffs whose entries differ in length|pretty reports of such diffs failed
P12|diff dates which are further apart|diff of far apart dates overflowed
P11|correlate the chosen columns whatever the case|a selection in another case selected nothing
P13|only remove the disabled statistics|removing disabled statistics removed others too
P13|omit every column with the key|*.* omitted nothing
P15|sum the null replication metrics in the order|worker order decided which column a sum belonged to
P16|remove the stop words of either profile|merged word counts held stop words
P16|add up the counts of words differing in case|diff dropped counts of words differing in case
P16|locate non-empty lines of text by position|repeated row labels doubled lines
P17|fit edge attributes of any number of edges|few-valued attributes broke the fit
P17|profile graphs whose edges carry different attributes|edges without an attribute broke the profile
P18|honour the quote character|a given quote character was ignored
P18|detect utf-8 files with few non-ascii|such files were read as another encoding
P18|reload delimited files with the given options|reload kept the old dialect
P19|read json lines past blank lines|reading stopped at a blank line
P19|flatten nested objects of json lines|nested objects stayed unflattened
P20|number the rows of parquet files|row labels restarted in every row group
P20|do not read the nodes of an edge list|node columns became edge attributes
P20|read signed node ids|"-3" stayed text while "3" became an integer
P21|encode characters when labels are given as an array|an array of labels was not matched to its texts
P21|label cells without a prediction None|cells without a prediction got another cell's label
P21|keep trailing null characters|trailing null characters were cut off
P22|label with precompiled regex patterns|precompiled patterns failed
P22|predict nothing when the regex model is given no data|no data failed
P23|do not share the parameters given|changing the caller's dictionary changed the model
P23|compare regex postprocessors|equal postprocessors compared unequal
P23|save regex postprocessors|an array priority order could not be saved
P23|a loaded character postprocessor equals|a loaded postprocessor compared unequal
P23|set single parameters of a column name model|setting one parameter failed
P24|merge data labels of a column without values|merging with an empty column failed
P24|average predictions of labels whose indices|labels with gaps between indices got wrong averages
P25|validation results only hold those of the last run|results of earlier runs stayed
P26|merged profiles only report the top categories|merging forgot the top-k limit
P26|update merged profiles which use a count min sketch|updating a merged sketch failed
P26|raise the error about incompatible|the error message itself raised a TypeError
P26|save and load profiles which use a count min sketch|sketches could be neither pickled nor written as JSON
P27|report invalid row statistics options|invalid row statistics options were accepted
P27|validate the vocab and words options|invalid vocab and words options were accepted
P27|return all modes when their number is not limited|the documented value None failed in reports
P27|sample a value for the precision of short columns|a small sample ratio gave NaN precision, failing merges
P29|missing-value plot drew bars over rows|isolated null rows were drawn as bars over rows that are not null
P29|histograms of selected columns are plotted in profile order|selected columns were plotted in the order of the request
P30|printed classification report without any true label|printing a report with no support raised TypeError
P10|nulls of a batch with negative row labels|null rows of overlapping batches with negative row labels collided
P14|a seed did not make the report of a table reproducible|two profiles of the same table with the same seed reported different samples and statistics
P01|example values of a column lost trailing NUL|the reported sample of a cell ending in NUL characters was not a cell of the column
P20|rows sampled from a Parquet file and the order of batches ignored|the same seed gave other rows and batches
P20|integers beside nulls lost digits|2**53+1 beside a null was read as 9007199254740992.0
P18|sampling a csv file split rows with quoted line breaks|sampled rows were pieces of rows
P18|a csv cell with line separators was split|a cell with a line break, or U+2028, was spread over several records
P19|JSON lines given as a string were cut|records with U+2028 or U+0085 in a value were dropped
P31|keys of S3 objects were cut|s3://bucket/a#1.csv read the object a
P20|column names of a graph file were not found beyond row 256|a header below row 256 lost the attributes' names
P20|the quote character of a graph file was ignored|quoted names kept their quotes or were split at the delimiter
P01|empty cells counted as null when no null values are set|an empty null pattern set still made empty cells null
P01|a cell with a line break after a null value|"nan\\n" counted as the null value nan
P10|rows with repeated index labels counted as one null row|the null ratios of rows counted labels, not rows; correlations failed
""".strip().splitlines()
log = [l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()]
log = [(h, s) for h, s in log if s.startswith("fix:")]
rows = [t.split("|", 2) for t in T]
fixed, used = [], set()
for p, key, what in rows:
    hit = [(h, s) for h, s in log if key in s]
    assert len(hit) == 1, (key, hit)
    used.add(hit[0][0])
    fixed.append(f"fixed: property={p} {hit[0][0]} {what}")
left = [x for x in log if x[0] not in used]
print(len(fixed), "fixed entries; commits without entry:", left)
f = "/verif/known_findings.json"
d = json.load(open(f))
d["fixed"] = fixed
json.dump(d, open(f, "w"), indent=1)
