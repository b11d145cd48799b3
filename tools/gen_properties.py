#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so it is easy to review)."""
import json, os
P = []
S = 'src/os_urlpattern/'


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {
            'files': [S + f for f in files],
            'state': [{'name': n, 'meaning': m, 'where': S + w} for n, m, w in state],
            'mechanism': [{'name': n, 'where': S + w} for n, w in mech],
            'observe_at': observe, 'hook_needed': None}})


prop('C01', 'A cluster\'s pattern is a regex that fully matches every URL of the cluster',
     'For every set of accepted URLs, the pattern emitted for a cluster, used as an ordinary regular expression, fully matches the path?query#fragment text of every URL put in that cluster (empty inner path segments collapsed, ;params dropped). It also does so segment by segment: each path level, query value and fragment of the URL is matched by its own part of the pattern.',
     ['inputs', 'configurations'],
     'all multisets of accepted URLs with one common character-space structure, all min_cluster_num >= 2',
     'The tests cluster six fixed lists of alphanumeric URLs; the guarantee is over every mix of characters, run lengths, repeated values and cluster sizes, and no test uses escaped signs such as backslash or brackets in clustering.',
     ['pattern_cluster.py', 'parse_utils.py', 'parsed_piece_view.py', 'pattern_maker.py', 'formatter.py'],
     [('specify_rule / wildcard_rule', 'parse_utils.py'), ('*PatternCluster._set_pattern', 'pattern_cluster.py'),
      ('ParsedPiece.piece_length', 'parse_utils.py'), ('ViewPieceBagBucket._transfer', 'pattern_cluster.py'), ('pack', 'parse_utils.py')],
     ['pformat("pattern", url_meta, clustered)', 'Pattern.match'])

prop('C02', 'Clustering partitions the loaded URLs, with exact counts and bound data',
     'Every distinct loaded URL (distinct in path, query and fragment) ends up in exactly one cluster, together with all the data bound to it, and nothing else is in any cluster. The count of a cluster equals the number of distinct URLs in it; loading a URL reports "new" exactly the first time, and loading it again changes no count and no cluster.',
     ['inputs', 'histories', 'configurations'],
     'all load sequences with repetitions, in any order, all min_cluster_num >= 2',
     'Tests check one count on one list loaded twice and never add up counts or bound data over several clusters.',
     ['utils.py', 'piece_pattern_node.py', 'pattern_cluster.py', 'pattern_maker.py'],
     [('build_from_parsed_pieces (uniq)', 'piece_pattern_node.py'), ('split_by_pattern', 'pattern_cluster.py'),
      ('build_tree / dump_tree', 'utils.py'), ('build_from_piece_pattern_nodes', 'piece_pattern_node.py')],
     ['PatternMaker.load result', 'clustered.count', 'leaf meta sets'],
     [('TreeNode.count', 'number of distinct URLs below a node', 'utils.py')])

prop('C03', 'Patterns produced by clustering match their own URLs when loaded for matching',
     'If the patterns generated from a set of URLs are all loaded into a matcher, then matching any of those URLs returns the pattern of the cluster the URL was put in. No generated pattern is rejected by the matcher.',
     ['inputs', 'configurations'],
     'all multisets of accepted URLs, all min_cluster_num >= 2',
     'No test feeds generated patterns back to the matcher; the view that clustering used must be re-derived from the pattern text, which can go wrong only for particular combinations of segments, extensions and literals.',
     ['pattern_matcher.py', 'parsed_piece_view.py', 'pattern_cluster.py', 'parse_utils.py'],
     [('view_cls_from_pattern', 'parsed_piece_view.py'), ('VIEW_MATCHERS', 'pattern_matcher.py'),
      ('MixedPatternViewMatcher', 'pattern_matcher.py'), ('fuzzy_digest', 'parse_utils.py')],
     ['PatternMatcher.match'])

prop('C04', 'A returned match is always a true and strict match',
     'Every pattern returned for a URL has the URL\'s structure (path levels, query keys in order, fragment presence), its regular expression matches each segment of the URL, and the set of character classes of each pattern segment equals the set occurring in the URL segment. A pattern that was not loaded is never returned, and each loaded pattern is returned at most once.',
     ['inputs', 'histories'],
     'all sets of loaded patterns of the documented grammar, in any load order, and all URLs',
     'Tests only assert that something matched; no test asserts that a non-matching pattern stays out.',
     ['pattern_matcher.py', 'parsed_piece_view.py', 'parse_utils.py', 'pattern.py'],
     [('ViewMatcher.match and subclasses', 'pattern_matcher.py'), ('PatternMatchNode.match', 'pattern_matcher.py'), ('fuzzy_digest keyed matchers', 'pattern_matcher.py')],
     ['PatternMatcher.match'])

prop('C05', 'No strictly matching pattern of an emitted form is ever missed',
     'For patterns in the forms clustering emits (literal text; sequences of literals, fixed-length and wildcard classes, one part per character-class run or per letter-digit block; one class over the whole segment; class + dot + extension at the last path level), every loaded pattern that strictly matches the URL is returned. Strictly means: same structure, and each part of a pattern segment covers whole runs of the URL segment with exactly its character classes and, where given, its length or text. This does not depend on which other patterns are loaded nor on the load order.',
     ['inputs', 'histories'],
     'all load orders of pattern sets of the emitted forms, all URLs',
     'The one matcher test loads six patterns in a single fixed order; lookup tables are filled incrementally and searched by bisection, so misses depend on the load history.',
     ['pattern_matcher.py', 'parsed_piece_view.py'],
     [('PatternMatchNode._get_matcher (bisection)', 'pattern_matcher.py'), ('add_match_node of each view matcher', 'pattern_matcher.py'), ('build_tree', 'utils.py')],
     ['PatternMatcher.match'])

prop('C06', 'Match results are totally ordered and the best one is the most specific',
     'For any URL, comparison of the returned results is a strict total order that does not depend on the order in which patterns were loaded. The maximum is the most specific one: reading segments from the last to the first, an exact literal beats a split per run, which beats a split per letter-digit block, which beats a split at the last dot, which beats a single fixed-length class, which beats a single wildcard class; within the same form, parts are compared from the last to the first, literal before fixed length before wildcard.',
     ['inputs', 'histories'],
     'all pattern sets of the emitted forms in all load orders, all URLs, all pairs and triples of results',
     'The only test calls sorted() and discards the result, and its comparison with the expected best is not asserted.',
     ['pattern_matcher.py'],
     [('MatchPattern.__lt__ / cmp_key', 'pattern_matcher.py'), ('PatternMatchNode.__lt__', 'pattern_matcher.py'), ('VIEW_ORDER', 'pattern_matcher.py')],
     ['sorted(PatternMatcher.match(url), reverse=True)'])

prop('C07', 'URL structure depends only on path, query and fragment, and is read exactly',
     'For every URL, the structure is: the number of non-empty path segments plus one for a trailing slash, the query keys in order, and whether a fragment part is present (also when it or the query is empty). The segments handed on are exactly the corresponding substrings of the URL, and scheme, host, port, user info and the ;params of the last path segment have no influence. (Tab, CR and LF inside and blanks in front of a URL are removed by the standard library before; they are not covered.)',
     ['inputs'],
     'all URL strings (any characters in path, query and fragment; any scheme/host)',
     'Tests list about twenty URLs; the empty query/fragment logic indexes characters from the end of the string and depends on every combination of ?, #, / and empty parts.',
     ['parse_utils.py', 'parser.py'],
     [('parse_url', 'parse_utils.py'), ('filter_useless', 'parse_utils.py'), ('unpack', 'parse_utils.py')],
     ['analyze_url(url)', 'parser.parse(url)'])

prop('C08', 'Splitting a segment into character-class runs is exact and lossless',
     'For every segment made of legal URL characters, the parsed form consists of the maximal runs of equal character class with the right class for each run; the original text can be recovered from it, its reported length is the number of characters, and two segments compare equal exactly when their texts are equal. A segment with any other character is rejected with InvalidCharException.',
     ['inputs'],
     'all strings over the legal alphabet and with illegal characters',
     'Five sample segments are tested; equality, hashing and the length computation walk over an escaped text form whose special cases (brackets, braces, backslash, run lengths of several digits) are not sampled.',
     ['parse_utils.py', 'definition.py'],
     [('PieceParser', 'parse_utils.py'), ('ParsedPiece.piece_length / __eq__ / __hash__ / fuzzy_rule', 'parse_utils.py'), ('CHAR_RULE_DICT', 'definition.py')],
     ['PieceParser().parse(s).pieces/.rules/.piece/.piece_length/.fuzzy_rule'])

prop('C09', 'Query strings are decomposed losslessly; only misplaced ampersands are rejected',
     'A query string is split at "&" into items and each item at its first "=" into key (including "=") and value, in order, so that joining them gives the query back; a single item without "=" is a value with an empty key, and an item without "=" among several is a key with empty value. IrregularURLException is raised exactly for an empty item ("&" at either end or doubled).',
     ['inputs'],
     'all query strings',
     'Eight strings are tested; the decomposition is a character-driven state machine.',
     ['parse_utils.py'],
     [('parse_query_string', 'parse_utils.py')],
     ['parse_query_string(q)'])

prop('C10', 'Query key normalisation is an injective regex form of the key',
     'The normalised form of a query key, read as a regular expression, fully matches the key and no other string; letters, digits and reserved characters stay as they are, each run of another legal sign becomes one bracketed sign with its count. Keys with characters outside the legal alphabet are rejected, never silently rewritten.',
     ['inputs'],
     'all key strings, with and without reserved characters',
     'Nine samples; the function is a two-buffer state machine whose flush conditions differ for letters, signs, reserved signs and end of string.',
     ['parse_utils.py'],
     [('normalize', 'parse_utils.py'), ('specify_rule', 'parse_utils.py')],
     ['normalize(s, reserved)', 'analyze_url(url)[0].query_keys'])

prop('C11', 'Fuzzy digests are equal exactly for equal structure and character spaces',
     'Two URLs have the same fuzzy digest exactly when they have the same path levels, query keys and fragment presence and the same set of character classes at each position. A URL and any pattern that strictly matches it have the same digest, so both always reach the same maker and matcher.',
     ['inputs'],
     'all pairs of URLs and all URL/pattern pairs',
     'Three pairs of equal digests are tested, and no pair that must differ.',
     ['parse_utils.py', 'parser.py', 'pattern.py'],
     [('fuzzy_digest / digest / pack', 'parse_utils.py'), ('fuzzy_rule properties', 'pattern.py')],
     ['parser.fuzzy_digest(url_or_pattern)'])

prop('C12', 'Pattern text is parsed back exactly: structure, segments, units and lengths',
     'A pattern text packed from a structure and per-segment patterns parses back to that structure and those segments. Within a segment, units concatenate back to the text, and each unit\'s class set and length (exact number or unbounded) is what the unit means as a regular expression.',
     ['inputs'],
     'all structures and all well-formed pattern segments',
     'About twenty samples; escapes inside brackets and multi-digit counts are hardly sampled and the round trip is only checked for length equality.',
     ['parse_utils.py', 'pattern.py', 'parser.py'],
     [('pack / unpack', 'parse_utils.py'), ('parse_url_pattern_string', 'parse_utils.py'), ('parse_pattern_string / parse_pattern_unit_string', 'parse_utils.py')],
     ['parser.parse(pattern)', 'Pattern.pattern_units', 'Pattern.fuzzy_rule'])

prop('C13', 'Clustering does not depend on the order in which URLs are loaded',
     'Loading the same URLs in any order gives the same clusters with the same patterns and counts.',
     ['inputs', 'histories', 'configurations'],
     'all permutations of all multisets of accepted URLs, all min_cluster_num >= 2',
     'Each test loads one list in one order.',
     ['pattern_cluster.py', 'pattern_maker.py', 'utils.py'],
     [('cluster classes processing buckets', 'pattern_cluster.py'), ('Bag / TreeNode containers', 'utils.py')],
     ['set of (pattern, members, count) over PatternMaker.make()'])

prop('C14', 'URLs are generalised only together with enough distinct companions',
     'A cluster whose pattern is not the literal text of a single URL contains at least min_cluster_num distinct URLs; below that number every URL keeps its own literal pattern. Two clusters of one result never have the same pattern.',
     ['inputs', 'configurations'],
     'all multisets of accepted URLs, all min_cluster_num >= 2',
     'One test checks one noise URL at the default threshold; the configured threshold is never varied.',
     ['pattern_cluster.py', 'pattern_maker.py', 'config/__init__.py'],
     [('confused and min_cluster_num comparisons', 'pattern_cluster.py'), ('split_by_pattern / cluster recursion', 'pattern_cluster.py')],
     ['PatternMaker.make() counts and patterns'])

prop('C15', 'Clustering of any accepted URLs terminates without error',
     'For every collection of accepted URLs and every min_cluster_num >= 2, making clusters finishes and raises nothing, in normal and in combined mode, and an empty maker yields no cluster.',
     ['inputs', 'configurations'],
     'all multisets of accepted URLs, all min_cluster_num >= 2, both modes',
     'Termination rests on "can be split" implying at least two parts; tests sample a handful of URL sets.',
     ['pattern_cluster.py', 'pattern_maker.py'],
     [('cluster / _can_be_splited / split_by_pattern', 'pattern_cluster.py')],
     ['PatternMaker.make()'])

prop('C16', 'pattern-make skips bad lines and reports exactly the clusters of the good ones',
     'For every sequence of input lines, pattern-make terminates normally and its output is that of clustering exactly the acceptable URLs among the lines (surrounding white space removed); empty, undecodable or invalid lines influence nothing. A configuration file given with -c sets the minimal cluster size used.',
     ['inputs', 'histories', 'configurations'],
     'all byte sequences as input lines, all positions of bad lines, all output formats',
     'The command line tests use clean input only and never pass a configuration file.',
     ['cmdline.py', 'config/__init__.py'],
     [('MakePatternCommand._load / _process', 'cmdline.py'), ('MakePatternCommand.process_args', 'cmdline.py')],
     ['stdout of pattern-make'])

prop('C17', 'pattern-match answers every input line once, in order, with the right verdict',
     'For every input line pattern-match writes exactly one output line, in input order, made of the verdict, a tab and the line with surrounding white space removed. The verdict is E when the line is not an acceptable URL, N when no loaded pattern matches, otherwise the best matching pattern (with -a: all matching patterns, tab separated); bad lines in pattern files are ignored.',
     ['inputs', 'histories'],
     'all byte sequences as input lines and pattern lines, with and without -a',
     'One test matches nine URLs against one pattern and looks for the pattern anywhere in the output.',
     ['cmdline.py', 'pattern_matcher.py'],
     [('MatchPatternCommand._load / _match_result / _match', 'cmdline.py')],
     ['stdout of pattern-match'])

prop('C18', 'All output formats describe the same clusters',
     'For every cluster, PATTERN, CLUSTER, INLINE and JSON output carry the same pattern text; CLUSTER and INLINE list every bound object of the cluster exactly once and nothing else, JSON carries the exact number of distinct URLs, and the pattern tree shows each level\'s pattern with its separator, key and count.',
     ['inputs', 'histories'],
     'all clusters and all bound data',
     'Two formats are tested on one cluster of ten URLs; the tree test asserts constants.',
     ['formatter.py', 'parse_utils.py', 'utils.py'],
     [('*Formatter.format', 'formatter.py'), ('dump_tree', 'utils.py'), ('pack', 'parse_utils.py')],
     ['pformat(name, url_meta, clustered)'])

prop('C19', 'Combined mode gives the same patterns and counts as separate clusters',
     'With combine enabled, each maker yields one tree whose root-to-leaf paths are exactly the patterns of its separate clusters, each leaf with the count of its cluster and each inner node with the sum of its children.',
     ['inputs', 'configurations'],
     'all multisets of accepted URLs, all min_cluster_num >= 2',
     'Tests compare the pattern of trees with a single path.',
     ['pattern_maker.py', 'utils.py'],
     [('Maker._combine_clusters', 'pattern_maker.py'), ('build_tree / dump_tree', 'utils.py')],
     ['PatternMaker.make(combine=True)'])

prop('C20', 'A rejected load leaves no trace in a maker or matcher',
     'When loading a URL into a maker or a pattern into a matcher raises an error, every later result is the same as if that load had never been attempted.',
     ['inputs', 'histories'],
     'all histories mixing accepted and rejected loads',
     'No test continues to use an object after a rejected load.',
     ['pattern_maker.py', 'pattern_matcher.py', 'parse_utils.py', 'parser.py'],
     [('parse before insert in load', 'pattern_maker.py'), ('parse before insert in load', 'pattern_matcher.py'), ('PieceParser._reset', 'parse_utils.py')],
     ['PatternMaker.load/make', 'PatternMatcher.load/match'])

prop('C21', 'Unacceptable URLs are rejected with the documented exceptions only',
     'Loading or matching any string either succeeds or raises IrregularURLException, InvalidCharException, InvalidPatternException or ValueError; no other exception escapes. A URL is accepted exactly when it has a path starting with "/", no empty query item, and only legal characters in path, query and fragment (after the standard library has dropped tab, CR, LF, leading blanks and the ;params of the last segment). A text starting with "/" is a pattern, not a URL, and is rejected.',
     ['inputs'],
     'all strings given to load or match',
     'Three rejected inputs are tested.',
     ['parse_utils.py', 'parser.py', 'pattern_maker.py', 'pattern_matcher.py'],
     [('parse_url index logic', 'parse_utils.py'), ('PieceParser._define', 'parse_utils.py'), ('unpack depth check', 'parse_utils.py')],
     ['PatternMaker.load(url)', 'PatternMatcher.match(url)'])

prop('C22', 'Malformed patterns are rejected, accepted ones are valid regular expressions',
     'Loading any string starting with "/" as a pattern either raises InvalidPatternException, IrregularURLException or ValueError, or every segment of it compiles as a regular expression and denotes a non-empty set of legal segment texts.',
     ['inputs'],
     'all strings starting with "/"',
     'Eleven malformed segments are tested.',
     ['parse_utils.py', 'pattern.py', 'pattern_matcher.py'],
     [('parse_pattern_string', 'parse_utils.py'), ('parse_pattern_unit_string', 'parse_utils.py')],
     ['PatternMatcher.load(pattern)'])

prop('C23', 'Makers and matchers work incrementally; making and matching disturb nothing',
     'Making clusters can be repeated and interleaved with further loads: whatever was made before (separately, combined or only in part), making gives the clusters, patterns, counts and bound data of a fresh maker loaded with the same URLs. Likewise matching between loads has no influence on later match results.',
     ['inputs', 'histories', 'configurations'],
     'all interleavings of load and make on one maker, and of load and match on one matcher',
     'Every test makes its clusters once, after all loads, and matches once.',
     ['pattern_maker.py', 'pattern_cluster.py', 'piece_pattern_node.py', 'utils.py', 'pattern_matcher.py'],
     [('Maker.make / cluster on the shared tree', 'pattern_maker.py'), ('split_by_pattern / copies of nodes', 'pattern_cluster.py'),
      ('PiecePatternNode.set_pattern', 'piece_pattern_node.py')],
     ['PatternMaker.load/make', 'PatternMatcher.load/match'])

prop('C24', 'Every segment of a cluster\'s pattern is the tightest one of its form',
     'The pattern of a cluster is determined by its members and generalises no more than needed: in every segment, a part on which all URLs of the cluster agree is literal text, a part on which they agree only in length is the character class with that length, and only parts of different length are class+. A part is the whole segment, a character-class run, a letter-digit block, or (last path level) the text before or after the last dot, the same kind of part for the whole segment; its class contains exactly the character classes occurring in it. In a last path segment of the form name.ext (a letter-digit name, an extension of at most two runs) the extension is never generalised on its own.',
     ['inputs', 'configurations'],
     'all multisets of accepted URLs, all min_cluster_num >= 2',
     'Tests compare a few patterns for hand-made lists; a pattern that is too general still matches all its URLs and passes every test that only asks for that.',
     ['pattern_cluster.py', 'parse_utils.py', 'parsed_piece_view.py', 'pattern_maker.py'],
     [('*PatternCluster.cluster / _set_pattern', 'pattern_cluster.py'), ('split_by_pattern and re-clustering', 'pattern_cluster.py'),
      ('ViewPieceBagBucket._transfer', 'pattern_cluster.py'), ('mix', 'parse_utils.py')],
     ['pformat("pattern", url_meta, clustered)', 'node.pattern'])

prop('C25', 'Match results carry the data last bound to exactly that pattern',
     'For every sequence of loads into a matcher, load reports "new" exactly when that pattern text was not loaded before, and each matching pattern is returned with the object of the last load of its text that bound one (None if none did). Objects that count as false are kept; loading a pattern again without an object keeps the bound one; no pattern shows the object of another.',
     ['inputs', 'histories'],
     'all sequences of pattern loads with repetitions and arbitrary bound objects, all URLs',
     'Tests bind one truthy object per pattern and load every pattern once.',
     ['utils.py', 'pattern_matcher.py'],
     [('build_tree (meta)', 'utils.py'), ('PatternMatchNode.add_child', 'pattern_matcher.py'), ('ViewMatcher.match returns n.meta', 'pattern_matcher.py')],
     ['PatternMatcher.load result', 'node.meta of PatternMatcher.match'])

prop('C26', 'Work can be split by fuzzy digest without changing any result',
     'URLs of one cluster always have the same structure and the same set of character classes in every segment. URLs with different fuzzy digests never influence each other: one Maker and one Matcher per digest (the low-level classes, as in the README), or a PatternMaker loaded with the URLs of one digest only, or the sub makers of a PatternMaker taken one by one, give the same clusters, patterns, counts and matches as one PatternMaker and PatternMatcher for everything. The digest of a URL text equals that of its parsed form.',
     ['inputs', 'histories', 'configurations'],
     'all collections of accepted URLs of mixed structure and character spaces',
     'Tests use the low-level classes on one list of URLs with a single digest and never compare them with the high-level ones.',
     ['pattern_maker.py', 'pattern_matcher.py', 'parser.py', 'parse_utils.py'],
     [('PatternMaker.load / Maker', 'pattern_maker.py'), ('PatternMatcher / Matcher', 'pattern_matcher.py'), ('fuzzy_digest', 'parser.py')],
     ['Maker.make', 'Matcher.match', 'PatternMaker.makers', 'PatternMaker.make', 'PatternMatcher.match'])

prop('C27', 'Enough evidence is generalised, and only then',
     'Let N be min_cluster_num. (1) URLs of one structure in which every varying part (a character-class run of a segment; not a file extension) takes at least N values of one length, or values of at least N lengths, form a single cluster. (2) If one part takes any values and what follows it differs in every URL, the URLs form one cluster when there are at least N values, or when there are at least N URLs and no value dominates (the most frequent value and all others together have at least N URLs each, or their numbers differ by less than N - 1); otherwise each value is kept, with one cluster for each value of at least N URLs and the other URLs left alone. (3) The same holds for different values in a single segment of one character class, with lengths in place of values: one cluster, or one for each length of at least N values.',
     ['inputs', 'configurations'],
     'all collections of accepted URLs of the described kinds, all frequencies, all min_cluster_num >= 2',
     'Leaving every URL alone satisfies most tests and all other guarantees; the thresholds decide for all combinations of frequencies, of which tests contain a handful.',
     ['pattern_cluster.py'],
     [('confused', 'pattern_cluster.py'), ('PiecePatternCluster.cluster', 'pattern_cluster.py'), ('LengthPatternCluster.cluster', 'pattern_cluster.py'),
      ('FuzzyPatternCluster.add / cluster', 'pattern_cluster.py'), ('MultiPatternCluster.cluster', 'pattern_cluster.py')],
     ['PatternMaker.make', 'pformat("pattern", url_meta, clustered)'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P))
