"""The table behind properties.jsonl and MANIFEST.json (python3 tools/gen.py)."""
LEV = 'cfog/metrics/levenshtein.pyx'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe or [], note=note, na=na))


prop('C01', 'levenshtein_distance is the edit distance',
     'For any two strings, over the whole of Unicode, the compiled Levenshtein distance is the minimum number of single-character insertions, deletions and substitutions turning one into the other.',
     ['inputs'], 'every pair of strings', 'the tests check a dozen pairs of ASCII words',
     [LEV], [('prefix/suffix trimming and one-row dynamic programming', LEV + ': levenshtein_distance')],
     ['cfog.metrics.levenshtein.levenshtein_distance'])
prop('C02', 'limited_levenshtein_distance is min(distance, maximum + 1)',
     'For any two strings and any maximum, the limited Levenshtein distance returns the exact distance when it does not exceed the maximum, and maximum + 1 otherwise.',
     ['inputs', 'configurations'], 'every pair of strings and every maximum', 'the tests check a few ASCII words and maxima',
     [LEV], [('banded dynamic programming with early exit', LEV + ': limited_levenshtein_distance')],
     ['cfog.metrics.levenshtein.limited_levenshtein_distance'])
prop('C03', 'The "distance at most one" predicates are exact',
     'levenshtein_distance_lte1 is true exactly for the pairs of strings at Levenshtein distance 0 or 1; damerau_levenshtein_distance_lte1 also accepts exactly one swap of adjacent characters.',
     ['inputs'], 'every pair of strings', 'the tests check a handful of pairs',
     [LEV], [('single left-to-right scan', LEV + ': levenshtein_distance_lte1, damerau_levenshtein_distance_lte1')])
prop('C04', 'Levenshtein 1d keys collide exactly for strings one edit apart',
     'Two strings not holding the wildcard share a Levenshtein 1d key if they are at most one edit apart (one insertion between two equal adjacent letters excepted, see the known finding), and never when they are further apart. With transpositions, strings one swap apart also share a key, and strings sharing a key are at most two edits apart. The number of keys stays within 2n+3 (3n+3 with transpositions).',
     ['inputs'], 'every pair of strings', 'the tests compare the keys of one word',
     ['fog/key/levenshtein.py'], [('wildcard neighborhood', 'fog/key/levenshtein.py: levenshtein_1d_keys')])
prop('C05', 'Levenshtein 1d blocks never miss a pair one edit apart',
     'Any two strings not holding the flag and at Levenshtein distance at most 1 (or one adjacent swap apart for the Damerau variant) share at least one 1d block, and a string never yields more than four blocks.',
     ['inputs'], 'every pair of strings within distance 1', 'the tests check edits of one word',
     ['fog/key/levenshtein.py'], [('half splitting', 'fog/key/levenshtein.py: levenshtein_1d_blocks')])
prop('C06', 'Levenshtein 2d blocks never miss a pair two edits apart',
     'Any two strings not holding the flags and at distance at most 2 (Levenshtein, or with adjacent swaps for the Damerau variant) share at least one 2d block; every string, the empty one included, gets a constant number of blocks.',
     ['inputs'], 'every pair of strings within distance 2', 'no test covers these functions',
     ['fog/key/levenshtein.py'], [('splitting in thirds', 'fog/key/levenshtein.py: levenshtein_2d_blocks')])
prop('C07', 'PassJoin finds exactly the pairs within distance k',
     'For distinct strings and any threshold k >= 1, sorting or not, passjoin yields exactly the clusters obtained from all the pairs of strings at Levenshtein distance at most k, in both modes and with sizes within min_size and max_size.',
     ['inputs', 'configurations'], 'every set of strings, every k, sorted or not, both modes', 'the tests run a few word lists for k 1 to 3',
     ['fog/clustering/passjoin.py', 'fog/clustering/utils.py'],
     [('segment index and multi-match-aware substring selection', 'fog/clustering/passjoin.py'), ('cluster assembly', 'fog/clustering/utils.py: clusters_from_pairs')])
prop('C08', 'PassJoin segments are even and its substring selection is as announced',
     'For every threshold k and string length, partition and segments give k + 1 contiguous segments covering the string, whose lengths differ by at most one, the shorter ones first. Against strings of any length l > k differing by at most k, the multi-match-aware selection stays within the string, yields only substrings having the length of the segment, never the same one twice in a row, as many of them as count_substrings_l tells when the characters are distinct and never more, and contains at least one segment of any string within Levenshtein distance k. count_keys(k, s) is the sum of count_substrings_l over the lengths s - k to s.',
     ['inputs', 'configurations'], 'every k, every length, every string', 'the tests check one string of ten characters for k = 3',
     ['fog/clustering/passjoin.py'],
     [('even partition', 'fog/clustering/passjoin.py: partition, segments'), ('selection windows', 'fog/clustering/passjoin.py: multi_match_aware_interval, multi_match_aware_substrings'), ('announced counts', 'fog/clustering/passjoin.py: count_substrings_l, count_keys')])
prop('C09', 'Clusters are assembled faithfully from pairs and buckets',
     'From any list of pairs or buckets, the connected_components mode yields exactly the connected components whose size lies within min_size and max_size, each item once. The fuzzy_clusters mode yields clusters made of a center followed by all of its neighbors, of a viable size, whose center is in no earlier cluster, and covers every item having a viable neighborhood.',
     ['inputs', 'configurations'], 'every sequence of pairs or buckets, orientation, repetition and size bounds', 'no test covers assembly by itself; clustering tests use a few small graphs without size bounds',
     ['fog/clustering/utils.py'], [('graph building and traversal', 'fog/clustering/utils.py: clusters_from_pairs, clusters_from_buckets')])
prop('C10', 'Pairwise clustering is exact in its three modes',
     'For any symmetric similarity or distance, with or without a radius, pairwise clustering yields the connected components of the similarity graph, or the fuzzy clusters (a center with all of its similar items), or disjoint leader clusters where every member is similar to the first item, all of them with sizes within min_size and max_size. A similarity reaching the radius, or a distance not exceeding it, counts as a match.',
     ['inputs', 'configurations'], 'every similarity relation, radius, mode, key and size bounds', 'the tests run one chain of seven words and never set max_size',
     ['fog/clustering/pairwise.py', 'fog/clustering/utils.py'],
     [('triangular scan, union-find', 'fog/clustering/pairwise.py'), ('similarity construction', 'fog/clustering/utils.py: make_similarity_function')])
prop('C11', 'Parallel clustering gives the same clusters as serial clustering',
     'With several processes, pairwise and blocking clustering compare every pair exactly once and yield the clusters the serial version defines, for every chunk size and every order in which workers finish.',
     ['schedules', 'inputs', 'configurations'], 'every completion order of the workers, chunk size and similarity', 'the tests run one data set with one chunk size, under one schedule',
     ['fog/clustering/pairwise.py', 'fog/clustering/blocking.py', 'fog/clustering/utils.py'],
     [('upper triangular chunks', 'fog/clustering/utils.py: upper_triangular_matrix_chunk_iter'), ('workers', 'fog/clustering/pairwise.py: pairwise_worker; fog/clustering/blocking.py: block_worker')])
prop('C12', 'Key collision groups exactly the items sharing a truthy key',
     'With one key per item, or several without merging, key_collision yields one cluster per truthy key, made of the items having it once each; when merging, it yields the connected components of the relation "share a truthy key". Only clusters with sizes within min_size and max_size are yielded.',
     ['inputs', 'configurations'], 'every assignment of keys to items and size bounds', 'the tests use two word lists with default sizes',
     ['fog/clustering/key_collision.py', 'fog/clustering/utils.py'], [('buckets', 'fog/clustering/key_collision.py: key_collision')])
prop('C13', 'Blocking clusters exactly the similar items sharing a block',
     'Blocking yields the clusters of the relation "share at least one block and are similar", whatever the block or blocks function and the similarity or distance, in both modes and with sizes within bounds.',
     ['inputs', 'configurations'], 'every assignment of blocks and similarity relation', 'the tests use two small word lists',
     ['fog/clustering/blocking.py', 'fog/clustering/utils.py'], [('buckets and in-block comparison', 'fog/clustering/blocking.py')])
prop('C14', 'Sorted neighborhood compares exactly the items within the window',
     'sorted_neighborhood yields the clusters of the relation "similar, and less than window positions apart in the order of at least one of the given sort keys", whether data is a list or an iterator, with any number of passes.',
     ['inputs', 'configurations'], 'every similarity relation, sort order, window and number of passes', 'one test with one window and no multipass',
     ['fog/clustering/sorted_neighborhood.py'], [('sliding window', 'fog/clustering/sorted_neighborhood.py: sorted_neighborhood')])
prop('C15', 'Adaptive sorted neighborhood terminates and compares whole blocks',
     'adaptive_sorted_neighborhood always terminates; for one pass its clusters are those obtained by cutting the sorted order into consecutive blocks of at least window items (the last may be shorter) and comparing everything inside each block. Mutually similar items all end up together, and no cluster relates items that are not similar.',
     ['inputs', 'configurations'], 'every similarity relation, sort order and window', 'one test with one window on seven words',
     ['fog/clustering/sorted_neighborhood.py'], [('window enlargement and retrenchment', 'fog/clustering/sorted_neighborhood.py: full_AA_SNM')])
prop('C16', 'The intersection index is exact for jaccard and overlap',
     'intersection_index yields the clusters of the items whose token sets have a Jaccard (or overlap) coefficient of at least the radius, for every radius above zero, repeated tokens counting once.',
     ['inputs', 'configurations'], 'every collection of token sequences and radius', 'two tests on four words',
     ['fog/clustering/intersection_index.py'], [('inverted index with intersection counters', 'fog/clustering/intersection_index.py')])
prop('C17', 'All-Pairs, PPJoin and PPJoin+ find exactly the similar pairs',
     'For jaccard, dice and binary cosine, every threshold in (0, 1], every token ordering and with or without a tokenizer, ppjoin, all_pairs and ppjoin_plus yield each pair of records reaching the threshold exactly once and no other pair; records without tokens match nothing.',
     ['inputs', 'configurations'], 'every collection of records, threshold, metric, variant and token ordering', 'the tests of this module cannot run here (missing data file) and use one data set',
     ['fog/clustering/ppjoin.py'], [('prefix, length, position and suffix filters', 'fog/clustering/ppjoin.py')])
prop('C18', 'QuickJoin gives the clusters of an exhaustive comparison',
     'For distinct items, a metric distance (or a similarity whose complement to one is a metric) and any radius, quickjoin yields the clusters of an exhaustive pairwise comparison, whichever pivots are drawn, whatever the block size (two or more), beta, processes and with or without vantage point trees, for any number of items including none, in both modes and with sizes within bounds.',
     ['inputs', 'configurations', 'schedules'], 'every metric, radius, random draw and completion order of the workers', 'the tests of this module cannot run here (missing data file) and use one data set and seed',
     ['fog/clustering/quickjoin.py'], [('pivot partitioning, windows, block joins', 'fog/clustering/quickjoin.py')])
prop('C19', 'Vantage point tree clustering yields whole neighborhoods',
     'For a metric distance and any radius, vp_tree yields clusters each made of exactly the items within the radius of an item belonging to no earlier cluster, of a size within min_size and max_size, and leaves out no item whose neighborhood has a viable size, whichever vantage points are drawn and for any number of items, including none or one.',
     ['inputs', 'configurations'], 'every metric, radius, size bounds and random draw', 'one test on seven words',
     ['fog/clustering/vp_tree.py'], [('tree queries', 'fog/clustering/vp_tree.py')])
prop('C20', 'NN-Descent terminates and never gathers unrelated items',
     'nn_descent and nn_descent_full terminate for any data (including none), any k, rho and delta and any random draw; they never put together items that no chain of matches reaching the radius relates (in fuzzy mode, every member matches the first one), respect size bounds, and when k covers all the other items they yield exactly the clusters of an exhaustive comparison. nn_descent only stops at a local optimum: a neighbor of a neighbor (in either direction) that is not itself a neighbor of an item is never closer to it than k of the neighbors found.',
     ['inputs', 'configurations'], 'every similarity, radius, k and random draw', 'the tests of this module cannot run here (missing data file) and use one data set and seed',
     ['fog/clustering/nn_descent.py'], [('neighborhood refinement', 'fog/clustering/nn_descent.py')])
prop('C23', 'Set similarities are the textbook coefficients',
     'For any two sequences of tokens, given as lists, tuples, sets, iterators or strings, jaccard_similarity, dice_coefficient, overlap_coefficient and binary_cosine_similarity (and the matching distances) are the usual coefficients of their sets of distinct tokens: symmetric, within [0, 1], 1 for equal non-empty sets, 0 for disjoint sets or when exactly one of them is empty.',
     ['inputs'], 'every pair of token sequences and container type', 'the tests check a few words',
     ['fog/metrics/jaccard.py', 'fog/metrics/dice.py', 'fog/metrics/overlap.py', 'fog/metrics/cosine.py', 'fog/metrics/utils.py'],
     [('intersection size', 'fog/metrics/utils.py: intersection_size'), ('coefficients', 'fog/metrics/*.py')])
prop('C24', 'Weighted and vector similarities are exact and total',
     'For sparse vectors with non-negative weights, weighted_jaccard_similarity is the sum of the minima over the sum of the maxima (0 when that is 0), sparse_cosine_similarity is the cosine of the vectors (0 when one is null), whatever the order of the arguments; sparse_dot_product, sparse_norm and sparse_normalize are the dot product, the euclidean norm and the vector of norm 1 with the same direction, inputs being left untouched; cosine_similarity is the cosine of the token frequencies of two sequences.',
     ['inputs'], 'every pair of weighted sets with real weights', 'the tests check a few vectors, none of them null',
     ['fog/metrics/jaccard.py', 'fog/metrics/cosine.py'],
     [('weighted jaccard', 'fog/metrics/jaccard.py: weighted_jaccard_similarity'), ('sparse vectors', 'fog/metrics/cosine.py')])
prop('C25', 'The monopartite projection has exactly the expected weighted edges',
     'For any bipartite graph, monopartite_projection keeps all the nodes of the projected part with their attributes and links two of them exactly when they share a neighbor and their similarity (common neighbors, jaccard, overlap, dice, binary cosine or cosine of the weights) is not null and reaches the threshold, that similarity being the weight of the edge; using the topology or not gives the same graph, graphs that are not bipartite and unknown metrics are refused, and the given graph is not changed.',
     ['inputs', 'configurations'], 'every bipartite graph, weights, metric, threshold, with or without topology', 'one test graph without null weights',
     ['fog/graph/projection.py'], [('vectors, norms and traversal', 'fog/graph/projection.py: monopartite_projection, compute_metric')])
prop('C26', 'Floatsam sparsification stops right before a component drifts away',
     'floatsam_sparsification always terminates for a positive learning rate; it returns the last threshold, starting from the given one and going up by the learning rate, before a second component of at least max_drifter_size (by default the logarithm of the number of nodes) appears or no edge is left; with remove_edges it removes exactly the edges under that threshold, and otherwise leaves the graph as it is. component_sizes and second_largest_component_size are exact for any edge filter.',
     ['inputs', 'configurations'], 'every graph, weights, learning rate and drifter size', 'no test covers this module',
     ['fog/graph/sparsification.py', 'fog/graph/utils.py'],
     [('threshold search', 'fog/graph/sparsification.py: floatsam_sparsification'), ('component sizes', 'fog/graph/utils.py')])
prop('C27', 'Best matching evaluation averages the best F1 matches',
     'best_matching_macro_average returns the averages, over truth clusters, of the precision, recall and F1 of a predicted cluster maximizing F1 (any of them on ties). It raises a TypeError exactly when a side or a cluster is empty, a truth item is missing from the predicted clusters, a predicted item is found twice, or a predicted item is unknown to the truth while additional items are not allowed; when allowed, those are ignored.',
     ['inputs', 'configurations'], 'every pair of clusterings', 'the tests check two small clusterings',
     ['fog/evaluation/best_matching.py', 'fog/utils.py'], [('index and candidate scoring', 'fog/evaluation/best_matching.py: best_matching_macro_average')])
prop('C28', 'Labels and clusters convert into each other faithfully',
     'labels_to_clusters groups exactly the items having equal labels, in order of first appearance, from a sequence, a mapping or an iterable of pairs; clusters_to_labels gives each item (or its key) the index of its cluster, the last one if it has several, as a mapping or as a flat list; converting back and forth preserves the partition.',
     ['inputs', 'configurations'], 'every labelling and clustering', 'the tests check one labelling',
     ['fog/evaluation/utils.py'], [('conversions', 'fog/evaluation/utils.py: labels_to_clusters, clusters_to_labels')])
prop('C29', 'N-grams are windows and n-gram keys all large enough combinations of them',
     'ngrams yields, in order and with the type of the sequence, every window of n consecutive tokens, or the sequence itself when shorter; joining the n-grams of a string gives it back. ngram_keys yields the concatenation of every ordered combination of at least max(1, floor(k * threshold)) of the k grams of a string and nothing else, the whole sequence of grams first, so that two strings sharing enough grams in order have a key in common.',
     ['inputs', 'configurations'], 'every sequence, n and threshold', 'the tests check a few words',
     ['fog/tokenizers/ngrams.py', 'fog/key/misc.py'], [('windows', 'fog/tokenizers/ngrams.py: ngrams, join_ngrams'), ('combinations', 'fog/key/misc.py: ngram_keys')])
prop('C30', 'Fingerprints are the sorted distinct words of the normalized string',
     'The fingerprint tokenizer gives the sorted distinct words of the string once lower-cased, transliterated to ASCII and stripped of all that is neither a letter, a digit nor whitespace; letters coming from a transliteration are kept whatever their case. The n-gram variant gives the sorted distinct n-grams of the same text without whitespace. Splitting characters, stopwords, digits dropping, squeezing and minimum token size apply as documented, keys join the tokens, and fingerprinting a fingerprint changes nothing.',
     ['inputs', 'configurations'], 'every string and option', 'the tests check a few short phrases',
     ['fog/tokenizers/fingerprint.py', 'fog/key/fingerprint.py'], [('normalization pipeline', 'fog/tokenizers/fingerprint.py')])
prop('C31', 'Skeleton and omission keys follow Pollock and Zamora',
     'For any string, the skeleton key is its first letter, then its other distinct consonants, then its other distinct vowels in order of appearance; the omission key is its distinct consonants in the order JKQXZVWYBFMGPDHCLNTSR, then its distinct vowels in order of appearance. Both work on the upper-cased ASCII transliteration, ignore what is not a letter and are empty when there is no letter.',
     ['inputs'], 'every string', 'the tests check a few words',
     ['fog/key/skeleton.py', 'fog/key/omission.py'], [('key composition', 'fog/key/skeleton.py: skeleton_key; fog/key/omission.py: omission_key')])
prop('C32', 'cologne is the Cologne phonetic code',
     'For any name, cologne returns the code given by the rules of Cologne phonetics over the letters of its upper-cased ASCII transliteration: letters coded with their context, then consecutive repeated digits squeezed, then every 0 but a leading one dropped; the code of a name without letters is empty.',
     ['inputs'], 'every name', 'the tests check fifteen names',
     ['fog/phonetics/cologne.py'], [('letter codes and squeezing', 'fog/phonetics/cologne.py: cologne')])
prop('C33', 'Rusalka keys are total and blind to transliteration variants',
     'rusalka gives a key for any name without failing: only lowercase letters, \u0283 and \u0292, with no vowel after the first character, whatever the case and the apostrophes. Names differing only by f/v/w/ph anywhere, a leading e/ye/je, a trailing i/ij/iy, tch/ch/sh, dzh/dj/zh, tch/tz, ks/x, cz/ts, k/kh or k/c/g (away from letters merging with them), a leading you/yu/iou/\u00fb, ch/\u010d/\u0161/\u015d, zh/\u017e, iou/\u00fb, doubled b, l, m, n or r, or by a or e inside, have the same key.',
     ['inputs'], 'every name and variant position', 'the tests check some known names',
     ['fog/phonetics/rusalka.py'], [('rewriting rules', 'fog/phonetics/rusalka.py: rusalka')])
prop('C35', 'hashjoin yields exactly the pairs sharing a key',
     'hashjoin yields each pair made of a left and a right item having the same key (or at least one key in common) exactly once, as (left, right), whichever side is larger and whether sides are lists, sets or iterators, and keys come as lists, sets or generators.',
     ['inputs', 'configurations'], 'every assignment of keys and kind of iterable', 'the tests check two small collections',
     ['fog/join/hashjoin.py'], [('nested loops and inversion', 'fog/join/hashjoin.py: hashjoin')])
prop('C36', 'squeeze and OnlineMean are exact',
     'squeeze drops exactly the consecutive repetitions of a character, of any kind, from a string (keeping those of roman numeral letters if asked to), and squeezing twice changes nothing. OnlineMean gives the mean and count of the values added and not subtracted, adding or merging means keeps the operands apart and equals the mean of all values, an empty mean raises StatisticsError and only means can be merged.',
     ['inputs', 'histories'], 'every string; every sequence of additions, subtractions and merges', 'the tests check four strings and one sequence of values',
     ['fog/utils.py'], [('regular expression', 'fog/utils.py: squeeze'), ('running sum', 'fog/utils.py: OnlineMean')])
prop('C37', 'The split and transform commands preserve rows and cells',
     'The split command writes, for each row in order, one row per value of the target cell, with the value in its place or, with a target column, added once after the unchanged cells; the transform command writes each row once, in order, with the result of the operations (or of the evaluated expression) in the target cell, in a last new column, or in a new column just after. Headers follow, and nothing else changes.',
     ['inputs', 'configurations'], 'every cell content, column position and option', 'no test covers the command line',
     ['fog/cli/split.py', 'fog/cli/transform.py', 'fog/cli/utils.py'], [('row rewriting', 'fog/cli/split.py: split_action; fog/cli/transform.py: transform_action')])
prop('C21', 'MinHash clustering and signatures are faithful to their definition',
     'minhash yields exactly the connected components of at least two items, two of them being linked when their signatures agree on a whole band and their Jaccard similarity reaches the radius, for any given number of bands or the guessed one, which is the smallest whose threshold does not exceed the radius and at most h. A MinHash signature has h values, depends only on the set of tokens and on the seed, and the signature of a union is made of the smallest values; a SuperMinHash signature is the minimum, at each position, of the randomly permuted draws of the tokens; an LSBMinHash signature packs the lowest bits of the MinHash one; minhash_similarity is the rate of equal values.',
     ['inputs', 'configurations'], 'every set of token sequences, signature, band count and radius', 'the tests check approximate similarities of a few words and one file',
     ['fog/clustering/minhash.py', 'fog/lsh/minhash.py'],
     [('bands and buckets', 'fog/clustering/minhash.py: minhash, guess_bands'), ('signatures', 'fog/lsh/minhash.py: MinHash, SuperMinHash, LSBMinHash, minhash_similarity')])
prop('C22', 'Simhash signatures and bit counts are exact',
     'simhash sets a bit exactly when more than half of the tokens (repetitions included) have it in their hash, for every supported size, and refuses other sizes; simhash_distance is the rate of different bits and simhash_similarity its complement; the population counts are exact on every word of their size; lsb_minhash_similarity is 1 - 2d where d is the rate of different bits.',
     ['inputs', 'configurations'], 'every word, pair of signatures and digests of the tokens', 'the tests check a few texts and numbers',
     ['fog/lsh/simhash.py', 'fog/lsh/utils.py', 'fog/lsh/minhash.py'],
     [('majority of bits', 'fog/lsh/simhash.py: simhash'), ('population counts', 'fog/lsh/utils.py'), ('LSB similarity', 'fog/lsh/minhash.py: lsb_minhash_similarity')])
prop('C34', 'The word tokenizer loses nothing and tags tokens for what they are',
     'On any text WordTokenizer terminates and, whitespace, control characters and hyphens aside, its tokens hold all the characters of the text in order and nothing else; no token is empty or holds whitespace, and words, numbers, hashtags, mentions, punctuation, urls and emails look like what they are tagged as (a lone digit may be tagged as punctuation). Options (lower, lengths, stoplist, keep, drop, normalizing or turning mentions and hashtags into words, splitting hashtags, reducing words, decoding entities, unidecode) do to the tokens just what they are documented to do; inconsistent options raise TypeError. split_hashtag cuts at digits and where the case changes, and its parts make up the hashtag.',
     ['inputs', 'configurations'], 'every text and option', 'the tests check a list of sentences',
     ['fog/tokenizers/words.py'], [('character state machine', 'fog/tokenizers/words.py: WordTokenizer.tokenize'), ('options', 'fog/tokenizers/words.py: WordTokenizer.__call__, split_hashtag')])
prop('C39', 'Cluster reports are well-formed and say the truth',
     'The cluster command and its reports, whatever the values of the CSV column, write a valid TOML document whose strings decode to these values, or an HTML page with all its elements closed and listing them escaped: one entry per cluster, in the order they were found, with its distinct values from the most to the least frequent (the first ones first on ties). Both give the right numbers of lines, distinct values and clusters, of values and rows of each cluster, the algorithm, the date and the duration given in seconds; the TOML one also gives the number of rows of each value and the most frequent value as the harmonized one.',
     ['inputs', 'configurations'], 'every content of the column, both formats', 'no test covers the command line',
     ['fog/cli/cluster.py', 'fog/cli/reporting/toml.py', 'fog/cli/reporting/html.py'],
     [('grouping', 'fog/cli/cluster.py: cluster_action'), ('escaping', 'fog/cli/reporting/toml.py; fog/cli/reporting/html.py')])
prop('C40', 'laesa finds exactly the pairs within the radius, for any metric',
     'For any metric, radius, number of pivots and random choice of the first pivot, laesa yields exactly the clusters obtained from all the pairs of items within the radius, in both modes and with sizes within min_size and max_size, items at a null distance, single items and empty data included.',
     ['inputs', 'configurations'], 'every metric, radius, pivots and random draw', 'no test covers this module',
     ['fog/clustering/laesa.py'], [('pruning by the distances to the pivots', 'fog/clustering/laesa.py: laesa, pivot_selection')])
prop('C38', 'The compiled distances are memory safe and do not leak',
     'On any pair of strings and any maximum, the compiled Levenshtein functions never read or write outside their buffers or the strings, never use or free memory twice, and free all they allocated.',
     ['inputs', 'configurations'], 'every pair of strings and maximum', 'tests do not observe memory',
     [LEV], [('malloc/free and unchecked indexing', LEV)])
prop('C41', 'Cosine candidate pairs are complete and never repeated',
     'naive_cosine_pairs yields each pair of vectors sharing at least one dimension exactly once, and no other pair. sqrt_indexation_pairs draws as many leaders as the integer part of the square root of the number of vectors, pairs each vector with the most similar leader, then with every earlier vector having the same leader, and nothing else.',
     ['inputs', 'configurations'], 'every set of sparse vectors, every shuffle', 'there is no test of this module',
     ['fog/clustering/fagin.py'], [('inverted lists', 'fog/clustering/fagin.py: naive_cosine_pairs'), ('leaders', 'fog/clustering/fagin.py: sqrt_indexation_pairs')])
prop('C42', 'Functions leave what they are given, and what they returned, unchanged',
     'No function changes the data it is given: lists of items, records and their tokens, buckets, keys returned by the callbacks, sets and weighted sets, vectors, clusters, labels, options given to the tokenizers and graphs are the same, in the same order, after the call (floatsam_sparsification with remove_edges excepted). A signature already returned does not change when another one is computed with the same object.',
     ['inputs', 'configurations'], 'every input and every similarity', 'tests give literals and look at results only',
     ['fog/clustering', 'fog/metrics', 'fog/join/hashjoin.py', 'fog/evaluation', 'fog/graph', 'fog/lsh', 'fog/tokenizers'],
     [('sorting', 'fog/clustering/sorted_neighborhood.py'), ('sorting', 'fog/clustering/passjoin.py: passjoin'), ('tokens', 'fog/clustering/ppjoin.py: preprocess'),
      ('items', 'fog/clustering/blocking.py'), ('weights', 'fog/metrics/jaccard.py'), ('clusters', 'fog/evaluation/best_matching.py'), ('options', 'fog/tokenizers/words.py: WordTokenizer')])
