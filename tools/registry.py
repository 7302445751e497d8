"""What decides each property: the units of contracts and the bounded stand-in."""
UNITS = ["sax", "dom", "doc", "item", "func", "eval", "call", "lex", "parse"]
BUDGET = dict(quick=20, thorough=240)
W64 = "64-bit machine: usize is 64 bits wide"
FL = "floating-point operations are deterministic functions of their operands; the IEEE 754 facts used are stated as axioms"
EV = "the operands are handed over by evaluate_xnode, whose contract is that of unit eval (C19, C20, C26); the parser builds the tree the grammar gives (unit parse, C12); which function a name and a number of arguments stand for is proved in unit call"
REC = "the recursion through evaluate_xnode, evaluate_function and match_sequence_type is resolved by contract: the inner call is assumed to be a function of the expression, the context and the environment which leaves the environment as it was when it succeeds, and the body is proved to do so too; termination of that recursion is not claimed"
TREE = "the accessors of document nodes and of expression nodes (node_type, name, children, attributes, parent, get_left, ...) are assumed to read one fixed finite tree during an evaluation"
KEYS = "keys of maps in the context are atomic (proved for the only constructor of maps, convert_xnode_to_map_array); named function references contain '#' (unit parse, named_ref)"
HEAP = "nodes are opaque handles whose kind, name and value never change; their child and attribute lists, parent links and order numbers live in one heap that is handed to every function; borrow() and borrow_mut() of a RefCell never conflict (a borrow lives for one statement), and no node vanishes during an operation (the handles of the caller keep the nodes at work alive; lemma_deaths: vanishing between operations keeps the invariants)"
NODES = "fewer than 2^61 nodes; attributes are set on nodes that are no attributes"
PARSE = ["expression texts shorter than 0x70000000 characters and without NUL", "nodes of the syntax tree live in one heap of cells that is only ever added to or, by assign_as_left and assign_as_right, linked (models Rc<RefCell<XNode>>; a conflicting borrow at run time is not considered)",
 "the function pointers handed to parse_bin_op_sub are an enumeration of the functions handed over (defunctionalised)", "HashMap tables of tokens and names behave as finite maps built from their list of pairs",
 "check_function_spec and str::parse::<usize> are functions of their arguments", "nesting depth is not bounded by a stack"]
PROPS = {
 "C01": dict(units=["sax", "doc"], level="proof", bounded="texts of up to 4 characters over the markup alphabet, all of them, and random texts: every call returns, tokens end",
   assumptions=[W64, HEAP, NODES, "texts shorter than 2^31 - 256 characters; fewer than 2^63 calls after the end"]),
 "C02": dict(units=["sax", "doc"], level="proof", bounded="generated well-formed documents against a reference tokenizer", assumptions=[W64]),
 "C03": dict(units=["sax"], level="proof", bounded="texts with references against a reference decoder; escaping round trips", assumptions=[W64]),
 "C04": dict(units=["sax"], level="proof", bounded="every scalar value, as first and as later character of a name", assumptions=[]),
 "C05": dict(units=["sax", "dom", "doc"], level="proof", bounded="generated documents, parsed and written again",
   assumptions=[W64, HEAP, NODES, "document texts shorter than 2^31 - 256 characters; a document whose nesting does not exhaust the stack", "String::repeat and Iterator::filter over the characters of a text do what their documentation says"]),
 "C06": dict(units=["dom"], level="proof", bounded="random histories of edits against a reference tree",
   assumptions=[W64, HEAP, NODES]),
 "C07": dict(units=["dom"], level="proof", bounded="random histories of edits against a reference tree",
   assumptions=[W64, HEAP, NODES]),
 "C08": dict(units=["dom"], level="proof", bounded="random histories of edits against a reference tree",
   assumptions=[W64, HEAP, NODES]),
 "C09": dict(units=["dom"], level="proof", bounded="random histories of edits against a reference tree",
   assumptions=[W64, HEAP, NODES]),
 "C10": dict(units=["dom", "call"], level="proof", bounded="random histories of edits against a reference tree",
   assumptions=[W64, HEAP, NODES]),
 "C11": dict(units=["lex", "parse", "call"], level="other", bounded='every text of up to 3 markers, token soup, damaged expressions, lists of malformed expressions'),
 "C12": dict(units=["lex", "parse"], level="proof", bounded='every pair and triple of operators with and without parentheses, random expressions against the reference parser',
   assumptions=[W64] + PARSE + ["a parenthesised expression evaluates to what its content evaluates to (unit eval)"]),
 "C13": dict(units=["item", "func", "call"], level="proof", bounded='all pairs of boundary and small integers under every operator, random 64-bit pairs',
   assumptions=[W64, FL, EV]),
 "C14": dict(units=["item"], level="proof", bounded='all pairs of a list of numbers of each type under every operator, random ones',
   assumptions=[W64, FL, EV]),
 "C15": dict(units=["item", "func", "call"], level="proof", bounded='all pairs of a list of items under every comparison, random sequences under general comparison',
   assumptions=[W64, FL, EV]),
 "C16": dict(units=["item", "func", "eval", "call"], level="proof", bounded='all short sequences of a list of items, random ones',
   assumptions=[W64, FL, EV, REC, TREE]),
 "C17": dict(units=["item"], level="proof", bounded='all pairs of subsets of small trees, random sequences of nodes',
   assumptions=[W64, FL, EV]),
 "C18": dict(units=["eval"], level="proof", bounded='every node and axis of all small trees and of random ones',
   assumptions=[W64, REC, TREE]),
 "C19": dict(units=["item", "eval"], level="proof", bounded='random paths over random trees',
   assumptions=[W64, REC, TREE, "the parser builds the step chain the path text denotes (proved in unit parse, C12)"]),
 "C20": dict(units=["item", "eval", "call"], level="proof", bounded='every position of short sequences, random chains of predicates over random trees',
   assumptions=[W64, FL, REC, TREE]),
 "C21": dict(units=["item", "func", "call"], level="proof", bounded='all positions in and around short sequences, 64-bit boundary positions',
   assumptions=[W64, FL, EV]),
 "C22": dict(units=["item", "func", "call"], level="proof", bounded='all pairs of short strings, all positions around them, random Unicode strings',
   assumptions=[W64, FL, EV]),
 "C23": dict(units=["item", "func", "call"], level="proof", bounded='all sequences of up to 3 of a list of numbers, random ones',
   assumptions=[W64, FL, EV]),
 "C24": dict(units=["item", "func"], level="proof", bounded='a list of items against every target type',
   assumptions=[W64, FL, EV]),
 "C25": dict(units=["item", "func", "eval", "call"], level="proof", bounded='keys of every kind, random maps and arrays',
   assumptions=[W64, FL, EV, REC, KEYS]),
 "C26": dict(units=["eval", "call"], level="proof", bounded='shadowing in all four binders, random nests of binders',
   assumptions=[W64, REC, TREE, KEYS]),
 "C27": dict(units=["item", "eval", "call"], level="proof", bounded='a list of values against every type and occurrence sign, random ones',
   assumptions=[W64, FL, REC, TREE, "the parser gives a typed function test the type of its result first (proved in unit parse, C12)"]),
 "C28": dict(units=["eval"], level="proof", bounded='every node, axis and test of random trees',
   assumptions=[W64, REC, TREE]),
}
NA = {}
NOTE = " Trusted: Verus and Z3, the weave tool, the assumed contracts listed in the evidence file. Functions whose text no longer fits their annotations are reported as undecided and covered by the bounded stand-in only."
