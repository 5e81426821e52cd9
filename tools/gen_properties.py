#!/usr/bin/env python3
'''Writes /verif/properties.jsonl (kept as a generator so that the text is easy to edit).'''
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mechanism],
            'observe_at': observe, 'hook_needed': None}})


BED = 'segeval/similarity/distance/multipleboundary.py'
SIM = 'segeval/similarity/__init__.py'

prop('C01', 'Boundary edit distance accounts for every difference exactly once',
     'For any two equally long boundary strings, any set of integer boundary types and any transposition span limit, applying the '
     'additions, substitutions and transpositions reported by boundary edit distance reconciles the first string with the second: every '
     'boundary that only one of them has, per type and per side, is consumed by exactly one edit and every shared boundary by none. Each '
     'transposition names a boundary type, a start before its end, a span of at least one position and less than n_t positions, and two '
     'positions at which exactly one string has it, oppositely; two transpositions of one type never share a position.',
     ['inputs'], 'all pairs of equally long boundary strings, all boundary type sets, all n_t >= 1',
     'The tests compare a dozen hand-written pairs with literal edit lists; conservation has to hold for every overlap of near misses, '
     'confusions and misses at every span.',
     [BED], [('edits per position, transpositions found by span and removed from the set edits', BED)],
     ['segeval.boundary_edit_distance', 'segeval.boundary_statistics'])

prop('C02', 'Boundary edit distance picks the documented, cheapest kind of edit',
     'Boundary edit distance uses a transposition for two opposite boundaries of one type within the span limit, considering shorter spans '
     'before longer ones and earlier positions first, never reusing a transposed boundary, and never where that would break up substitutions '
     'at both positions. What is then left at a position is paired into as many substitutions as possible at the least total type distance; only the '
     'unpaired rest becomes additions. With n_t = 1 there are no transpositions.',
     ['inputs'], 'all pairs of equally long boundary strings, all boundary type sets, all n_t >= 1',
     'Overlap of spans, types and confusions is combinatorial; the tests sample 11 hand-made strings of ten positions with n_t of 2 or 3.',
     [BED], [('ascending span search with overlap and substitution guards; minimal assignment over permutations', BED)],
     ['segeval.boundary_edit_distance'])

prop('C03', 'B and S are symmetric, bounded, and 1 exactly for identical segmentations',
     'For any two segmentations of one document (including ones without any boundary) and any n_t >= 1, with the default weights, boundary '
     'similarity and segmentation similarity lie in [0, 1], give the same value when the two segmentations are exchanged, and equal 1 exactly when the '
     'segmentations are identical. With one_minus they give exactly the complement, for default and for unscaled weights alike.',
     ['inputs', 'configurations'], 'all pairs of segmentations, one or several boundary types, all n_t, both argument orders, weights',
     'Symmetry, bounds and identity are universally quantified; tests check about 15 values and no swapped pair.',
     ['segeval/similarity/boundary.py', 'segeval/similarity/segmentation.py', SIM, 'segeval/similarity/weight.py'],
     [('edit counting and weighting', SIM), ('numerator over denominator', 'segeval/similarity/boundary.py')],
     ['segeval.boundary_similarity', 'segeval.segmentation_similarity'])

prop('C04', 'B and S equal their defining fractions for every option combination',
     'Boundary similarity equals (edits + matches - weighted edits) / (edits + matches), or 1 if there is nothing to compare, and segmentation '
     'similarity equals (potential boundaries - weighted edits) / potential boundaries, where potential boundaries are the positions times the '
     'number of boundary types present (at least one). This holds for every n_t and every supplied triple of weighting functions, each of which receives exactly '
     'the edits of its kind; return_parts gives the numerator and denominator of that same value (for B followed by the edits), with or without one_minus.',
     ['inputs', 'configurations'], 'all pairs of segmentations x n_t x weight triples x one_minus x return_parts',
     'Tests evaluate single option settings on a few pairs; option interaction and multi-type documents are not covered.',
     ['segeval/similarity/boundary.py', 'segeval/similarity/segmentation.py', SIM],
     [('statistics reduced to a fraction', 'segeval/similarity/boundary.py'), ('potential boundary count', 'segeval/similarity/segmentation.py')],
     ['segeval.boundary_similarity', 'segeval.segmentation_similarity'])

prop('C05', 'Boundary statistics report is complete and self-consistent',
     'For any two segmentations of one document, the statistics report lists every shared boundary once as a match, every boundary only one side has once '
     'as a full miss, the total number of boundaries of both, the potential boundaries (positions times boundary types present, at least one), exactly the types present, '
     'the edits of boundary edit distance under the given n_t, and their weighted count under the given weights.',
     ['inputs', 'configurations'], 'all pairs of segmentations x boundary types x n_t x weights',
     'One test compares one report; each field is a function of every position of both inputs.',
     [SIM], [('statistics dictionary', SIM)], ['segeval.boundary_statistics'])

prop('C06', 'The BED confusion matrix classifies every boundary exactly once',
     'For any hypothesis and reference, the confusion matrix has on its diagonal, per type, the matches plus the weighted transpositions of that '
     'type, at [hypothesis type][reference type] one count per substitution, and for each boundary left unmatched one count in the row or column of '
     'the empty class: at [type][None] if only the hypothesis has it and at [None][type] if only the reference has it. No other cell is non-zero.',
     ['inputs', 'configurations'], 'all pairs of segmentations x boundary types x n_t x transposition weights',
     'One test inspects eight cells of one matrix; the accounting must hold for every mixture of edits.',
     [SIM], [('matches, weighted near misses, confusions and misses added cell by cell', SIM)],
     ['segeval.boundary_confusion_matrix'])

prop('C07', 'Every metric gives one value whatever format encodes the segmentation',
     'A segmentation of two or more units encoded as masses, as position labels (any hashable, orderless labels, one per segment), as an NLTK string or, for the edit-distance '
     'metrics, as boundary sets, in a list or in a tuple, yields the same result from every metric, pairwise dataset comparison and agreement '
     'coefficient. A bare integer given as a mass segmentation means one segment of that size.',
     ['inputs', 'configurations'], 'all pairs of segmentations x all formats x labelings x metrics and options',
     'Each metric is tested with a format or two on one pair; equality across formats is never asserted.',
     ['segeval/format.py', SIM, 'segeval/window/pk.py', 'segeval/window/windowdiff.py', 'segeval/window/__init__.py', 'segeval/agreement/__init__.py', 'segeval/util/__init__.py'],
     [('conversion chains in each metric', SIM), ('conversion of formats', 'segeval/format.py'), ('bare integers', 'segeval/util/__init__.py')],
     ['all metrics and agreement coefficients'])

prop('C08', 'Pk equals its definition for every segmentation pair and window',
     'Pk is the fraction, over all pairs of units exactly one window size apart, of those that the hypothesis and the reference disagree on being in one '
     'segment, and 0 if there is no such pair; the window size is the one given or else the one computed from the reference. It is 0 for identical '
     'segmentations, unchanged by exchanging them when the window is given, within [0, 1], the parts are the two integers of that fraction and one_minus its complement.',
     ['inputs', 'configurations'], 'all pairs of segmentations x window sizes x rounding functions x options',
     'Tests check about 20 values; off-by-one errors at either end or for particular windows can hide between them.',
     ['segeval/window/pk.py', 'segeval/window/__init__.py'], [('window sliding and comparison of its ends', 'segeval/window/pk.py')],
     ['segeval.pk'])

prop('C09', 'WindowDiff equals its definition, with and without boundary padding',
     'WindowDiff is the fraction of windows of the given (or reference-derived) size in which hypothesis and reference contain different numbers of boundaries, '
     'and 0 when no window fits; with the Lamprier fix both are first extended by one window of padding on either side (the padding edges being boundaries) and the number of windows '
     'plus one is the denominator. It is within [0, 1], 0 for identical segmentations, never below Pk for the same window without the fix, independent of '
     'how segments are labelled, and parts and one_minus are consistent with it.',
     ['inputs', 'configurations'], 'all pairs of segmentations x window sizes x padding x options x labelings',
     'Tests check about 25 values, and padding only on one pair and two corpora.',
     ['segeval/window/windowdiff.py', 'segeval/window/__init__.py'],
     [('paired windows, boundary counting, padding', 'segeval/window/windowdiff.py')], ['segeval.window_diff'])

prop('C10', 'The default window size is half the mean reference segment length',
     'The computed window size is half of the mean segment length, over all segments of the segmentation or of every segmentation in a (nested) collection or dataset, passed '
     'through the given rounding function (rounding half to even by default) and never below 2; masses and position labels of the same segmentation give the same size, and the '
     'window metrics use this size of their reference, never of their hypothesis.',
     ['inputs', 'configurations'], 'all segmentations, nested collections and datasets x rounding functions x formats',
     'Three values are tested.',
     ['segeval/window/__init__.py'], [('collection of masses and mean', 'segeval/window/__init__.py')],
     ['segeval.compute_window_size', 'segeval.pk', 'segeval.window_diff'])

prop('C11', 'Dataset comparison yields exactly the direct value for every coder pair',
     'Comparing one dataset gives, for every item and every two of its coders, one entry (both orders when permuted), and comparing two datasets gives, for every '
     'shared item, one entry per coder of the first and coder of the second; keys are item, first and second coder joined by commas (item names being strings, and such that keys do not collide). Each value is what comparing those two segmentations directly in that '
     'order with the same options gives, and nothing is missing, duplicated or added.',
     ['inputs', 'configurations'], 'all shapes of datasets (items, coders, names, shared or not) x metrics x options',
     'Tests look up a few entries of two sample corpora or only their mean.',
     ['segeval/compute.py', 'segeval/util/__init__.py'],
     [('pair enumeration', 'segeval/compute.py'), ('argument dispatch', 'segeval/util/__init__.py')],
     ['all metrics called with datasets'])

prop('C12', 'Agreement coefficients equal their definitions on every dataset',
     'On every dataset coded completely by two or more coders with at least one boundary and documents of two or more units, actual agreement is the sum of the comparison numerators over the sum of the '
     'denominators over all coder pairs and items; pi is chance-corrected by the square of the mean, and kappa by the mean over coder pairs of the product, of the coders\' proportions of potential boundaries used; bias is '
     'the difference of the two expected agreements. Whenever expected agreement is below 1, complete agreement gives exactly 1, no coefficient exceeds 1, and items on which nobody placed a boundary are handled like any other.',
     ['inputs', 'configurations'], 'all complete datasets (coders, items, boundary types, formats) x comparison function x options',
     'Tests evaluate six corpora; the definitions quantify over every pair of coders and item.',
     ['segeval/agreement/__init__.py', 'segeval/agreement/pi.py', 'segeval/agreement/kappa.py', 'segeval/agreement/bias.py'],
     [('pair loop and per-coder boundary counts', 'segeval/agreement/__init__.py'), ('expected agreement', 'segeval/agreement/pi.py'), ('expected agreement', 'segeval/agreement/kappa.py')],
     ['segeval.actual_agreement_linear', 'segeval.fleiss_pi_linear', 'segeval.fleiss_kappa_linear', 'segeval.artstein_poesio_bias_linear'])

prop('C13', 'Agreement depends only on the codings, not on how they were assembled',
     'Agreement coefficients depend only on which coder gave which segmentation to which item: they are the same for a plain dictionary and for a dataset however '
     'that came about (constructed, filled item by item, merged, copied, loaded from JSON, TSV or folders, with codings replaced or removed), for every order of items and coders, and for any renaming of '
     'items and coders.',
     ['histories', 'inputs'], 'all ways and orders of assembling one content, all renamings',
     'Tests compute agreement on constructed sample objects only, in one order.',
     ['segeval/data/__init__.py', 'segeval/data/jsonutils.py', 'segeval/data/tsv.py', 'segeval/agreement/__init__.py'],
     [('set of coders kept beside the codings', 'segeval/data/__init__.py')],
     ['agreement coefficients', 'segeval.Dataset'],
     [('coders', 'names of the coders known to a dataset', 'segeval/data/__init__.py')])

prop('C14', 'Precision, recall and F-measure equal their definitions and averages',
     'For every confusion matrix of non-negative counts, precision of a class is its diagonal cell over its row sum, recall over its column sum (0 if the diagonal is 0), and '
     'F-measure is (1+b^2)PR/(b^2 P+R), or 0 if P or R is 0, for every b. Macro averages are means over all classes and micro averages pool the numerators and the denominators of all classes (0 if '
     'the numerators vanish); every result lies in [0, 1], and a collection of matrices is evaluated matrix by matrix.',
     ['inputs', 'configurations'], 'all matrices over small class sets and counts (integer or fractional) x class x average x beta',
     'Tests use half a dozen matrices of two classes.',
     ['segeval/ml/__init__.py'], [('per-class ratios and averaging', 'segeval/ml/__init__.py')],
     ['segeval.precision', 'segeval.recall', 'segeval.fmeasure'])

prop('C15', 'A confusion matrix answers from its current content, whatever was asked before',
     'After any sequence of assigning, incrementing, reading, replacing or deleting cells and rows, copying, and asking for classes or statistics, the classes are exactly the labels '
     'that occur as rows or columns of the matrix at that moment and every statistic is the one of the current cells. Unset cells read as zero, asking for classes or '
     'statistics (even for an unknown class) changes no later answer, and matrices never influence one another. Copies (shallow, deep or pickled) hold the same cells, and deep ones are matrices of their own.',
     ['histories'], 'all operation sequences up to a depth over two matrices',
     'Tests run straight-line scenarios; a stale cache or an inserting read needs a particular order of operations.',
     ['segeval/ml/__init__.py'], [('class set of a matrix', 'segeval/ml/__init__.py')],
     ['segeval.ConfusionMatrix', 'segeval.precision', 'segeval.recall', 'segeval.fmeasure'],
     [('rows', 'counts by predicted then actual class', 'segeval/ml/__init__.py')])

prop('C16', 'Merging and copying datasets is a loss-free union without side effects',
     'Adding a dataset to another yields exactly the union of their codings and coders; a coder already present for an item makes the addition fail with a data error and leaves '
     'both datasets as they were. The union has the properties, boundary types and format of the left operand. The + operator, copies and adding never change the right operand, the data a dataset was built from, or any dataset other than the target; copies keep '
     'codings, coders, properties, boundary types and format and are independent of the original.',
     ['histories'], 'all sequences of construct, add, add in place, copy and edit over a few datasets up to a depth',
     'Tests run single operations; aliasing and partial merges need sequences and conflicts at particular places.',
     ['segeval/data/__init__.py'], [('merge, copy', 'segeval/data/__init__.py')], ['segeval.Dataset'],
     [('codings, coders, properties, boundary types, format', 'content of a dataset', 'segeval/data/__init__.py')])

prop('C17', 'Saved datasets load back unchanged, and a torn file is never accepted',
     'Saving a mass dataset as JSON (to a file or into a directory) and loading it gives the same items, coders, masses, coder set and user properties (other than the two reserved fields), for any names and whatever the file '
     'held before. A file that is any proper prefix of a saved one, or lacks the segmentation type or items or has another segmentation type, is rejected with a data error, and a save that fails to write everything '
     'reports an error. Loading any number of files does not exhaust file handles.',
     ['inputs', 'crash_points', 'fault_sequences'], 'all small datasets and name alphabets, all truncation points, all write-failure points, save/load sequences',
     'Tests save one corpus and load four prepared files.',
     ['segeval/data/jsonutils.py'], [('JSON writing and reading', 'segeval/data/jsonutils.py')],
     ['segeval.output_linear_mass_json', 'segeval.input_linear_mass_json'])

prop('C18', 'Folder and TSV loading is complete and independent of listing order',
     'Loading a TSV file gives one item named after the file with one coding per row (a coder that has two rows is an error), for any delimiter, line ending and trailing blank lines. Loading a folder tree gives exactly the codings of all files with a '
     'matching extension (in any letter case) at any depth, each item prefixed by its folders\' names joined by commas, ignoring other files; the result, including the error for a coder '
     'that occurs twice for an item, is the same for every order in which the file system lists entries.',
     ['inputs', 'schedules'], 'all small folder trees and files x all directory listing orders',
     'One test loads one folder in whatever order the file system happens to use.',
     ['segeval/data/tsv.py', 'segeval/data/__init__.py'], [('row parsing', 'segeval/data/tsv.py'), ('recursive loading', 'segeval/data/__init__.py')],
     ['segeval.load_nested_folders_dict', 'segeval.input_linear_mass_tsv'])

prop('C19', 'Every public name resolves, whatever was accessed or imported first',
     'Every name that the package announces resolves to the same, one object no matter which names or submodules were accessed or imported before it and in which order, from a fresh interpreter on; '
     'unknown names raise an attribute error, and listing the package shows the announced names at all times.',
     ['histories'], 'all orders of first access of public names and submodules',
     'Tests access names in one process after everything was imported.',
     ['segeval/__init__.py', 'segeval/util/__init__.py', 'segeval/compute.py'],
     [('lazy attribute resolution', 'segeval/__init__.py'), ('mutual imports', 'segeval/util/__init__.py')], ['import segeval'],
     [('loaded submodules and resolved names', 'state of the lazy namespace', 'segeval/__init__.py')])

prop('C20', 'Metrics are pure: results depend only on the arguments of the call',
     'No metric, converter, agreement coefficient or statistic changes its arguments or settings of the process (such as the decimal context), and each result depends only on the arguments at the time of the call: not on earlier calls with the same or other inputs '
     'and options, on changes the caller made to inputs or earlier results in between, or on further calls made from within weighting, rounding or comparison functions.',
     ['histories'], 'all sequences of calls over an alphabet of inputs and options up to a depth, with mutation and re-entrance',
     'Each test makes its calls in one fixed order and never re-enters or mutates results.',
     ['segeval/util/__init__.py', 'segeval/compute.py', SIM, 'segeval/window/__init__.py', 'segeval/agreement/__init__.py', 'segeval/metric.py'],
     [('option dictionaries copied per call', 'segeval/util/__init__.py')], ['all metrics'])

prop('C21', 'Concurrent evaluations give the results of sequential ones',
     'Metrics, agreement coefficients, converters and confusion-matrix statistics evaluated at the same time by several threads on separate or shared inputs each give exactly the result they give alone, for '
     'every interleaving, once the package has been imported.',
     ['schedules'], 'all interleavings of two (or three) threads up to a preemption bound',
     'No test starts a thread.',
     ['segeval/util/__init__.py', 'segeval/compute.py', SIM, BED, 'segeval/window/windowdiff.py', 'segeval/window/pk.py', 'segeval/ml/__init__.py', 'segeval/agreement/__init__.py'],
     [('no shared mutable state', 'segeval/metric.py')], ['all metrics'])

prop('C22', 'Incomparable or unsupported input is rejected, never scored',
     'Every comparison metric, alone, through datasets or in agreement, raises the package\'s metric error when the two segmentations differ in length, when the format is unknown or not supported by the metric, '
     'when two datasets of different formats are compared, or when no or more than two arguments are given, and never returns a value; an unknown averaging method is rejected likewise.',
     ['inputs', 'configurations'], 'all pairs of lengths x formats x metrics x ways of passing arguments',
     'Tests try one pair of lengths and one bad format per metric.',
     ['segeval/util/__init__.py', SIM, 'segeval/window/pk.py', 'segeval/window/windowdiff.py', 'segeval/agreement/__init__.py', 'segeval/ml/__init__.py'],
     [('input validation', 'segeval/util/__init__.py')], ['all metrics'])

prop('C23', 'Summary statistics equal their definitions for every set of values',
     'Summarizing a non-empty mapping of integer or decimal values gives their arithmetic mean, population standard deviation, population variance, standard error of the mean (standard deviation over the square root of the count) and count, '
     'independent of their order; variance is never negative. All of these hold up to the rounding of the default decimal precision.',
     ['inputs'], 'all multisets of values up to a size over a value alphabet, in any order',
     'One list of eight numbers is tested.',
     ['segeval/util/math.py', 'segeval/compute.py'], [('mean, var, std, stderr', 'segeval/util/math.py'), ('summarize', 'segeval/compute.py')],
     ['segeval.summarize'])

prop('C24', 'Format converters are exact and mutually inverse',
     'For every sequence of positive masses, converting to positions and back, or reading the corresponding NLTK string (with any one-character boundary symbol), gives the masses again; positions have one label per unit, change exactly at segment ends and number segments from '
     '1; the boundary string has one set per inner unit edge, containing type 1 exactly at segment ends. Any position labelling with differing neighbouring segments converts to the same masses.',
     ['inputs'], 'all mass sequences up to a length, long documents, all labelings of them',
     'A dozen literal conversions are tested.',
     ['segeval/format.py'], [('converters', 'segeval/format.py')],
     ['segeval.convert_masses_to_positions', 'segeval.convert_positions_to_masses', 'segeval.boundary_string_from_masses', 'segeval.convert_nltk_to_masses'])

prop('C25', 'Edit weighting functions count or scale edits as documented',
     'The unscaled weights give the number of edits; the scaled transposition weight gives the sum of spanned distances over the span limit, and the scaled substitution weight the sum of ordinal distances over the '
     'size of the type range, so that within their limits each edit costs more than 0 and less than 1 and cost is additive over edits and independent of their order and direction (up to decimal rounding).',
     ['inputs'], 'all lists of edits over small positions and types x limits',
     'Two lists are tested.',
     ['segeval/similarity/weight.py'], [('weights', 'segeval/similarity/weight.py')],
     ['segeval.weight_a', 'segeval.weight_s', 'segeval.weight_s_scale', 'segeval.weight_t', 'segeval.weight_t_scale'])

prop('C26', 'First uses of the package by several threads are safe in every order',
     'Once "import segeval" has returned, names may be accessed for the first time by several threads at once, as attributes, by from-import, star import or dir, or by importing submodules, and functions may be called '
     'for the first time by several threads: each access gives the one object of that name, each call gives the result it gives alone, and none fails or waits forever, for every interleaving; afterwards every name of the package still gives that one object.',
     ['schedules'], 'all interleavings of two threads up to one preemption, over pairs of first accesses and first calls',
     'No test starts a thread, and every test runs in a process in which most of the package was loaded before.',
     ['segeval/__init__.py', 'segeval/util/__init__.py', 'segeval/data/jsonutils.py', 'segeval/data/tsv.py'],
     [('lazy attribute resolution', 'segeval/__init__.py'), ('imports within functions', 'segeval/util/__init__.py')], ['import segeval'],
     [('loaded submodules and resolved names', 'state of the lazy namespace', 'segeval/__init__.py')])

prop('C27', 'An interrupted call leaves nothing behind',
     'When a call of the package is interrupted at any moment (Control-C, an alarm of the caller), the interruption reaches the caller; the arguments and the settings of the process are as they were, and the same call made again, '
     'and every other call, gives the result it gives on its own. An interrupted first access to the package can be repeated, and every name then still gives one object. '
     'After an interrupted save the file holds what it held, what was saved, or is refused, and saving again works; an interrupted addition neither changes the dataset that is added nor loses or makes up codings; an interrupted change of a confusion matrix leaves the old or the new count.',
     ['fault_sequences', 'histories'], 'all points of all calls as the point of interruption',
     'No test interrupts anything; there are tens of thousands of points at which a call can be interrupted.',
     ['segeval/__init__.py', 'segeval/data/__init__.py', 'segeval/data/jsonutils.py', 'segeval/similarity', 'segeval/window', 'segeval/agreement', 'segeval/ml/__init__.py', 'segeval/util'],
     [('metrics', 'segeval/similarity/distance/multipleboundary.py'), ('agreement', 'segeval/agreement/__init__.py'), ('addition', 'segeval/data/__init__.py'), ('saving', 'segeval/data/jsonutils.py'), ('lazy attribute resolution', 'segeval/__init__.py')], ['all functions of segeval'],
     [('arguments of the call', 'datasets, segmentations, matrices of the caller', 'segeval/data/__init__.py')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
