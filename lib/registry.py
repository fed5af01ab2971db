REG = {
 'D01': dict(src=['D01.cpp'], rule='state = ordered forest over the node pool; every operation of the alphabet applied to the real DOM in every reachable forest, plus all accepted histories up to the depth bound'),
 'D02': dict(src=['D02.cpp'], rule='every rejected (operation, operands) at every reachable forest up to the bound, on the real DOM'),
 'D03': dict(src=['D03.cpp'], opt='-O2', rule='every sequence of attribute operations (2 elements, 6 attribute nodes, 3 names x 3 namespaces) up to the depth bound on the real DOM against a map model'),
 'D04': dict(src=['D04.cpp'], rule='12 tag-name/NS lists per root plus childNodes, taken before, during and after every operation in every reachable forest; query/mutation interleavings; getElementById under every short edit history'),
 'D05': dict(src=['D05.cpp'], rule='every edit sequence over every offset/count class; every repeated splitText; normalize over every bounded forest of text/CDATA/comment/element nodes'),
 'D07': dict(src=['D07.cpp'], opt='-O2', rule='every bounded source tree x {clone, import} x {deep, shallow} x every mutation of source or copy'),
 'D09': dict(src=['D09.cpp'], rule='all 7 navigation steps from every visible node plus full walks, for every ordered tree x filter verdict assignment, every whatToShow subset, entity expansion on/off, and navigation/mutation interleavings'),
 'D10': dict(src=['D10.cpp'], backends=['expat','libxml2','xerces'], rule='every document of the bounded grammar (content tokens, namespace declarations, internal subset declarations) parsed on every backend and compared with the tree its generator defines; every sequence of good and bad documents on one parser; every truncation'),
 'X01': dict(src=['X01.cpp'], rule='every bounded document x every context node x every axis/node test/predicate combination (one and two steps) and 80 compound path forms, compared with an independent XPath 1.0 evaluator'),
 'X02': dict(src=['X02.cpp'], rule='every operator over every pair of a 44-entry operand table, every pair of node value sequences up to length 2 (3), every node sequence against 19 scalars both ways round, all three-operand chains over 8 values x 11 operators; compared with an independent XPath 1.0 evaluator'),
 'X03': dict(src=['X03.cpp'], rule='every core function over complete argument tables (all short strings over small alphabets, 28 number classes, 36 argument expressions, every context node), every arity 0..4 of every name', assume=['string functions are exercised on ASCII text: with std::string the library counts bytes']),
 'X04': dict(src=['X04.cpp'], rule='all 2047 binary exponents x 64 significand patterns x sign, k*10^e families, every string up to length 4 (5) over a 14-character alphabet, every literal up to length 5; narrow and wide strings'),
 'X07': dict(src=['X07.cpp'], rule='every pair of nodes of every bounded tree in both insertion orders, all unions of small node sequences over a fixed document, every forest of up to three trees (attached, detached, fragment, other document): antisymmetry, transitivity and canonical sorting on all triples; element widths across the 1000 boundary'),
 'X05': dict(src=['X05.cpp'], rule='every pattern of the step/predicate/join grammar (20 node tests x 24 predicates, two and three steps joined by / and //, unions) on every node of 5 documents, 55 pattern forms on every node of every bounded tree, default priority of every alternative; compared with the definition of matching run over an independent evaluator; 47 non-patterns'),
 'U02': dict(src=['U02.cpp'], backends=['libxml2'], rule='11 character classes over all 0x110000 code points against the XML 1.0 Appendix B tables of libxml2; every string up to length 4 (5) over 14 characters and every BMP character in 7 name positions, wide and UTF-8; every byte string up to length 4 over 18 bytes'),
 'U01': dict(src=['U01.cpp'], rule='every relative reference of up to 4 (5) segments over 8 segment kinds against 11 base paths x 6 scheme/authority pairs, relative bases, queries and fragments, absolute and network-path references, every scheme/authority/path combination, every string up to length 5 (7) over 6 characters; against RFC 2396/3986 resolution written over segment lists'),
 'S05': dict(src=['S05.cpp'], opt='-O2', rule='every sequence of push, pop, reset and declarePrefix (10 declarations) up to depth 4 (6), every nesting of 4 (5) levels with unwinding, every event sequence up to length 6 (8) through NamespaceTracker; all lookups compared with a stack of maps after each step'),
 'S07': dict(src=['S07.cpp'], rule='every sequence of up to 4 (5) of 33 operations on two attribute lists (add, add-or-replace, set, setters, remove, clear, copy, assign, self-assign, out-of-range), every accessor and lookup compared with a vector after each; lists up to 40 long'),
 'U03': dict(src=['U03.cpp'], rule='every string up to length 4 (5) over 14 characters escaped both ways, decoded independently and parsed back through the parser, narrow and wide; every BMP character; whitespace normalisation of every string up to length 5 (7) over 10 characters, and of every BMP character'),
 'C01': dict(src=['C01.cpp'], opt='-O2', rule='every Unicode scalar value through every facet both ways with every output capacity; every sequence up to 3 (4) units over ~25 boundary units per encoding with every capacity, every input split and every length() bound; every 4-unit sequence in one call; the locale lookup of each facet; the string adaptors over boundary characters and internal buffer edges'),
 'C02': dict(src=['C02.cpp'], opt='-O2', rule='every byte string of length 1 and 2, 256x256x16 (256^3) of length 3, every string up to 5 (7) over 5 bytes, encoded and decoded under 90 output-capacity schedules, every input split and line-break position; every input up to 5 (6) over 7 symbols for robustness; every interleaving of two users of one facet; every put/flush pattern through the streams and buffer-boundary sizes'),
 'C03': dict(src=['C03.cpp'], opt='-O1', rule='8 facets x every text of up to 3 (4) characters x every short-read pattern x 6 reading styles, whole, cut at every unit, and with malformed data at every character; every flush pattern, writing style and sink failure point; every alignment of every character across the internal buffer edges; stream replacement, chains, accessors'),
 'S02': dict(src=['S02.cpp'], backends=['expat','libxml2','xerces'], rule='on each of three parser backends: every nesting to depth 3 (2 for libxml2 and Xerces) with every combination of namespace (un)declarations, prefixed and plain attributes under each namespaces/namespace-prefixes feature setting; every namespace-constraint violation and legal neighbour at 4 places; every content sequence of up to 4 (5) of 13 items with prolog/epilog variants; DTD declaration pairs; every subset of installed handlers; the event string compared with a reference model'),
 'S01': dict(src=['S01.cpp'], backends=['expat','libxml2','xerces'], rule='on each backend, 12 documents covering every construct and kind of error: every pair of cut points of the reads, byte-wise reads, narrow and wide strings; every byte of each at every block boundary (1K..20K (64K)) under three kinds of padding; 6 encodings x every cut; 5 kinds of input source'),
 'S03': dict(src=['S03.cpp'], backends=['expat','libxml2','xerces'], rule='on each backend: every token string up to length 4 (5; Xerces 3) over 25 markup tokens judged by a reference grammar; every truncation, deletion and substitution of each byte of a construct corpus; an exception from every handler call index; every history of 3 documents on one parser; entity resolver outcomes; the parser reused after each'),
 'T06': dict(src=['T06.cpp'], san='', opt='-O2', rule='every sequence of up to 3 items of 15 leaf instructions and 20 container instructions (conditionals, iteration, copies, element/attribute/comment/PI constructors, variables, messages, literal elements) inside three template frames on two documents; the DOM result compared with an independent reference XSLT processor'),
 'T04': dict(src=['T04.cpp'], san='', opt='-O2', rule='every nesting of up to 3 element and attribute constructions with prefixes, default namespaces, xsl:element/xsl:attribute names and namespaces, copies and copy-of from namespaced sources; every string of up to 3 (4) of 14 significant characters as text, CDATA-section text, attribute, comment and PI data; every combination of xsl:output options; every sequence of 4 (5) escaped and unescaped texts; every pair of namespace aliases before and after their use. The stream output is reparsed by an independent namespace-checking XML parser and compared with an independent reference XSLT processor and with the DOM output'),
 'T02': dict(src=['T02.cpp'], san='', opt='-O2', rule='every sequence of up to 3 items of 9 leaf and 14 container instructions that declare, shadow, pass and print two variable names, called directly, through apply-templates and through global variables; every order and dependency of global variables and parameters with every way of passing values from outside; compared with an independent reference XSLT processor'),
 'T03': dict(src=['T03.cpp'], san='', opt='-O2', rule='every group of up to 3 items with key values from fixed tables under every pair of sort keys (text, number, ascending, descending, expressions on position), every axis and predicate select under for-each and apply-templates, and every nesting of up to 3 (4) iteration, call, copy and sort instructions printing position, last and current before, inside and after; compared with an independent reference XSLT processor'),
 'T01': dict(src=['T01.cpp'], san='', opt='-O2', rule='two and three rules from 11 patterns x 6 actions placed in every import and include arrangement of up to four module files on disk; rule orders within one module; named templates, variables, parameters and keys by import precedence; compared with an independent reference XSLT processor'),
 'T05': dict(src=['T05.cpp'], san='', opt='-O2', rule='every pair of key declarations from 12 match patterns x 8 use expressions x names on 6 documents with every lookup value (strings, numbers, node-sets, unions) from every context node and inside document() trees; every history of two runs over changing documents; compared with an independent reference XSLT processor'),
 'T07': dict(src=['T07.cpp'], opt='-O1', rule='every sequence of up to 3 (4) runs of each of a corpus of stylesheets (variables, keys, sorts, imports, messages, modes, output options, errors part-way) over several documents, parameter settings and sinks, including runs that fail in the middle and sinks that throw, each compared with a freshly compiled stylesheet; two compiled stylesheets run alternately and nested; source documents compared before and after'),
 'T08': dict(src=['T08.cpp'], opt='-O1', rule='every XSLT element under every other (and at top level, under literal elements and as document element), every combination of each attribute absent, valid or one of a table of invalid values, text and child content for every element, 60 whole-stylesheet rules (duplicates, circular includes, imports and variables, forward references, order constraints), every order of good and bad compilations on one compiler; verdicts compared with a table transcribed from the XSLT 1.0 Recommendation; accepted sheets are run'),
 'S08': dict(src=['S08.cpp'], san='', opt='-O2', defs=['-D_GLIBCXX_ASSERTIONS'], rule='every sequence of up to 5 (6) element starts and ends with 10 kinds of xml:base value (absolute, relative, empty, query, network path) and decoy attributes under 4 document locations; every three-element tree through the filter in two successive runs with the location set by locator, by call or both, the first run stopping at every event; documents nested in documents; real parses with reuse after failure; base and resolution compared after every event with an independent RFC 3986 resolver and a stack'),
 'S06': dict(src=['S06.cpp'], opt='-O1', rule='every sequence of up to 3 (4) of 32 events covering every handler method through one to three default filters; every subset of handlers set; every content sequence of up to 4 (5, 6) events over 14-18 events through the trackers, writers, text coalescer, whitespace stripper, text-only filter and PYX writer, including documents abandoned at every event; all calls received downstream compared one by one with the filter contract, PYX output decoded by an independent reader'),
}
NOT_APPLICABLE = {}
