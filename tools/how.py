"""Per property: how it is decided (goes to DESIGN.md)."""
HOW = {
 'C01': 'The .pyx is translated (symx/pyx.py) and run on two strings of symbolic code points. Oracle: the textbook dynamic programme over the same symbolic characters, built as one if-then-else term; the assertion is their equality.',
 'C02': 'As C01, with a symbolic maximum. Oracle: min(distance, maximum + 1).',
 'C03': 'As C01. Oracle: "distance <= 1" of the textbook recurrence (optimal string alignment for the Damerau variant).',
 'C04': 'Both key sets are built symbolically; "some key of A equals some key of B" is a disjunction of string equalities, compared with the symbolic distance. The known finding F1 (below) is excluded by an assumption in one case and replayed by name in another.',
 'C05': 'As C04, one way only (distance <= 1 implies a shared block), plus the bound on the number of blocks.',
 'C06': 'As C05 for distance <= 2 and the six 2d block functions.',
 'C07': 'passjoin runs whole (segments, index, selection windows, verification) on symbolic strings; the distance given to it is the textbook one as a term. Oracle: components (or fuzzy clusters) of the symbolic graph of pairs within k.',
 'C08': 'Lengths are symbolic integers up to a billion (k concrete): the windows returned by the real code are summed as terms and compared with the announced counts in linear arithmetic. Segments and substrings run on symbolic strings; completeness (some segment is selected) is asserted under the assumption that the textbook distance is at most k.',
 'C09': 'The clusters builders run on symbolic pairs or buckets (each end is a symbolic choice of item); oracle: reachability computed by Warshall on the symbolic adjacency, sizes as sums of if-then-else.',
 'C10': 'The similarity is an uninterpreted symmetric matrix of symbolic booleans, integers or reals; radius, min_size and max_size are symbolic. Oracle: the symbolic graph "similarity reaches the radius".',
 'C11': 'The worker pool is an in-process stand-in whose completion order is a symbolic choice; the result is compared with the oracle of C10/C13 for every order, chunk size and similarity.',
 'C12': 'Keys are symbolic; the oracle groups items by symbolic equality of keys.',
 'C13': 'Blocks are symbolic values, similarity a symbolic matrix. Oracle: graph "share a block and similar".',
 'C14': 'Sort keys, similarities and window are symbolic. Oracle: graph "at most window apart in one of the orders and similar", ranks being sums of comparisons.',
 'C15': 'As C14; the result must be the one of some cut of the sorted order in consecutive blocks of at least the window size (a disjunction over the cuts, of conditions on the symbolic relation); non-termination is detected by a step budget and replayed with a time limit.',
 'C16': 'Tokens are symbolic with every equality pattern, the radius is a symbolic real. Oracle: exact rational Jaccard or overlap from pairwise token equalities.',
 'C17': 'Records of symbolic tokens with every order and equality pattern (token identifiers are symbolic integers); oracle: the similarity of each pair as a ratio of counts, compared with the threshold.',
 'C18': 'The distance is a symbolic matrix constrained by the metric axioms; random pivots are symbolic choices. Oracle: graph "distance <= radius".',
 'C19': 'As C18 (pseudo-metric), through phylactery\'s VPTree, which is instrumented too.',
 'C20': 'As C10 with integer similarities and symbolic random draws; asserts soundness of each cluster against symbolic reachability, sizes, termination (step and draw budgets), and equality with the exhaustive clusters when k covers all the items.',
 'C21': 'minhash runs with a stand-in MinHash whose signatures are free symbolic integers, then with the real one (crc32 as a table); signatures are compared with the minima of the definition. SuperMinHash runs on free real draws.',
 'C22': 'Words are z3 bit-vectors; table look-ups become multiplexers; oracle: the sum of the bits. Digests of the tokens have a free hexadecimal digit at each tested position.',
 'C23': 'Tokens with every equality pattern, in every kind of container; oracle: ratios of counts.',
 'C24': 'Weights are symbolic reals (non-linear real arithmetic); oracle: the algebraic definition, square roots being characterised by their square.',
 'C25': 'Edges are symbolic booleans, weights symbolic reals, threshold symbolic; the resulting networkx graph is compared edge by edge with the definition.',
 'C26': 'Edges and weights are symbolic; oracle: an independent computation of components at each step of the threshold.',
 'C27': 'Items have every equality pattern; oracle: for each truth cluster the set of F1-maximal predicted clusters, the averages being checked against some choice among them.',
 'C28': 'Labels and items have every equality pattern; oracle: grouping by symbolic equality, and round trips.',
 'C29': 'Strings, n and threshold are symbolic; oracle: windows by index, and all the ordered combinations.',
 'C30': 'Characters are symbolic over large domains; regular expressions (symx/regex.py), lower and unidecode act on symbolic characters through range tables. Oracle: an independent normalisation written over characters.',
 'C31': 'As C30; oracle: letters, order tables and first occurrences.',
 'C32': 'As C30; oracle: the rules of Cologne phonetics applied letter by letter with their context.',
 'C33': 'As C30; relational: the keys of two symbolic names differing by one variant are equal, and the alphabet of the key.',
 'C34': 'The tokenizer (a state machine over characters, and regular expressions) runs on symbolic texts; assertions over the tokens (conservation of characters, shape of each type); options are decided relationally, against the post-processing of the tokens given without the option.',
 'C35': 'Keys have every equality pattern; oracle: all the pairs having a common key.',
 'C36': 'squeeze runs on symbolic characters, OnlineMean on symbolic reals and histories.',
 'C37': 'The actions of the command run on rows of symbolic cells (csv stand-in); oracle: the rows rewritten by definition.',
 'C38': 'As C01-C03; memory is modelled by blocks with bounds, initialisation and lifetime, each access being an assertion. Replays use an AddressSanitizer build with an allocation counter.',
 'C39': 'The report is produced on symbolic values, then parsed back by a TOML (resp. HTML) reader run on the symbolic text (tomllib when replaying); oracle: the values and counts given.',
 'C42': 'Each function runs on symbolic data held by the harness, which compares it, item by item and down to nested containers, with a copy made before the call.',
 'C41': 'The generators run on vectors whose dimensions are symbolic, or with a symbolic similarity matrix and symbolic leaders. Oracle: "share a dimension" as a disjunction of equalities; the closest leader as comparisons of symbolic similarities.',
 'C40': 'As C18, pseudo-metrics included.',
}
