#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept in step with DESIGN.md / MANIFEST.json).
import json
P=[]
def p(id,title,statement,over,text,why,files,syms):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=s,where=", ".join(files)) for s in syms])))

p("C01","Reading any XML text ends with a tree or an error",
 "Given any Unicode text whatsoever, the token reader and the document constructor terminate without panicking, and every reader call that does not report end of input consumes at least one character or delivers a pending end tag. The result is either a document or an error value, never a hang, an out-of-range access or an arithmetic overflow.",
 ["inputs"],"Every finite string, including truncated, malformed and binary-looking text, cut at any character.",
 "The tests feed about a dozen hand-written documents; a truncation at one particular character of one particular construct is outside any sample.",
 ["src/sax.rs","src/dom.rs"],["SaxDecoder::raw_token","SaxDecoder::get_until","SaxDecoder::get_name","SaxDecoder::getchar","new_document"])
p("C02","Markup is cut at exactly the delimiters XML prescribes",
 "Every token carries exactly the source characters between its delimiters: a comment ends at the first '-->', a CDATA section at the first ']]>', a processing instruction at the first '?>', an attribute value at the first quote of the kind that opened it, a name at the first non-name character, character data at the next '<', a declaration at the bracket matching its opening one. CDATA, comment and instruction content is delivered verbatim, and no other character of the input is lost or moved to another token. (Speaks of text whose markup is well-formed and which contains no NUL and no carriage return.)",
 ["inputs"],"Every input text and every position in it at which a token can start.",
 "Tests show one comment, one CDATA and one instruction of fixed content; near-delimiters such as ']]]>' or '--->' at arbitrary offsets are not sampled.",
 ["src/sax.rs"],["SaxDecoder::get_until","SaxDecoder::get_until_ch","SaxDecoder::look_ahead_keyword","SaxDecoder::get_chardata","SaxDecoder::get_until_matching_bracket","SaxDecoder::raw_token"])
p("C03","Character references decode exactly once; escaping is invertible",
 "In character data and attribute values each predefined entity and each decimal or hexadecimal character reference is replaced by exactly the character it denotes, in one left-to-right pass whose output is never scanned again, and all other text is unchanged. Consequently escaping any text for output and decoding it again gives back that text.",
 ["inputs"],"Every text, in particular texts in which a decoded character together with its neighbours spells another reference.",
 "Tests decode isolated references; only adjacency of arbitrary texts exposes double decoding or order dependence.",
 ["src/sax.rs","src/dom.rs"],["decode_entity","encode_entity"])
p("C04","Name characters are those of the XML 1.0 tables",
 "A character is accepted as the first, respectively a later, character of an element, attribute or instruction name exactly when the XML 1.0 productions Name and NameChar (Letter, Digit, CombiningChar, Extender, '.', '-', '_', ':') admit it, and white space in tags is exactly space, tab, CR and LF.",
 ["inputs"],"All 1,112,064 Unicode scalar values.",
 "The tests use some ASCII letters and two Japanese names out of 300 ranges.",
 ["src/sax.rs"],["is_name_char","is_name_first_char","is_letter","is_combining_char","is_digit","is_extender","is_space","char_is_in_ranges"])
p("C05","Serialising and re-reading a document reproduces it",
 "Parsing the compact serialisation of any document obtained by parsing yields a document with the same element, attribute, text, comment and instruction structure (adjacent text merged, empty text dropped), names and values, and serialising that again yields the same string. The compact form adds no white space; the pretty form differs from it only in white space between nodes.",
 ["inputs"],"Every well-formed document without a document type declaration, of XML characters.",
 "Tests compare the output of a few fixed documents only.",
 ["src/dom.rs","src/sax.rs"],["NodePtr::to_string","NodePtr::to_pretty_string","NodePtr::inner_xml","to_string_with_indent","encode_entity","new_document"])
p("C06","Parent and child links agree after any history of edits",
 "After any sequence of appending, inserting before or after, replacing, deleting children and setting or deleting attributes, every child and attribute of a node reports that node as its parent, a node occurs in at most one child list and only once, no node is its own ancestor, and a deleted node has no parent. Navigation (parent, root, siblings, namespace look-up) never panics, even when the document handle it came from has been dropped.",
 ["histories"],"Every finite sequence of editing operations whose inserted nodes are elements, texts, comments or instructions, on any collection of documents, including moving nodes inside one document and between documents, and dropping handles.",
 "Tests perform one edit each and only look at the serialised text.",
 ["src/dom.rs"],["NodePtr::append_child","NodePtr::insert_as_previous_sibling","NodePtr::insert_as_next_sibling","NodePtr::delete_child","NodePtr::replace_with","NodePtr::parent","NodePtr::root","shallow_copy_rc_rels"])
p("C07","Each edit changes exactly the named place in the child list",
 "Appending puts the node at the end; inserting puts a node equal in content immediately before, respectively after, the reference node; replacing substitutes it at the same index; deleting removes exactly the given child and nothing when it is not a child. All other children keep their identity and relative order, and no attribute, name or value of any other node changes.",
 ["inputs","histories"],"Every tree, every reference node and every index in its child list, after any history.",
 "Tests use three-element lists and one position per operation.",
 ["src/dom.rs"],["NodePtr::append_child","NodePtr::insert_as_previous_sibling","NodePtr::insert_as_next_sibling","NodePtr::delete_child","NodePtr::replace_with","NodePtr::find_child_index","make_new_child_rc_node"])
p("C08","The attributes of an element behave as an ordered map",
 "Setting an attribute makes its value readable under exactly that name, keeps its position if the name existed and otherwise adds it last; deleting removes exactly that name; every other attribute keeps its name, value and relative order. Reading an absent name gives nothing.",
 ["inputs","histories"],"Every element, every name and value, after every history of set and delete operations.",
 "Tests set one existing and one new attribute once.",
 ["src/dom.rs"],["NodePtr::set_attribute","NodePtr::delete_attribute","NodePtr::attribute_value","NodePtr::find_attribute_index"])
p("C09","Document order is a strict total order and is kept up to date",
 "At every moment the order numbers within one tree are pairwise different and follow the tree: a node precedes its attributes, these (in their order) precede its children, and all of a child's subtree precedes the next child. This holds again at the first query after any edit, whatever was queried before the edit.",
 ["histories","inputs"],"Every tree shape and every interleaving of edits with order queries.",
 "No test queries order, edits, and queries again.",
 ["src/dom.rs"],["NodePtr::document_order","NodePtr::setup_document_order_sub","NodePtr::clear_document_order"])
p("C10","Prefix, local name and namespace follow the nearest declaration",
 "A qualified name is split at its first colon, and joining prefix, colon and local part gives the name back; without a colon the prefix is empty and the local part is the whole name. The namespace of an element is the value of the nearest declaration of its prefix (or of the default declaration) on itself or its ancestors, and empty when there is none.",
 ["inputs"],"Every name and every nesting of declarations, including shadowing and re-declaration.",
 "Tests show a single declaration without shadowing.",
 ["src/dom.rs"],["NodePtr::local_name","NodePtr::space_name","NodePtr::namespace_uri"])
p("C11","Any XPath text yields a value or an error, never a crash",
 "Compiling and evaluating any text as an XPath expression terminates with a sequence or an error value; it does not panic, overflow or loop (exhaustion of memory or stack by the sheer size of a range, depth of nesting or a function applied to itself without end aside). In particular blank text, an unterminated literal or comment, a missing operand, an unbalanced bracket, a numeric literal that denotes no value and a reference to an undefined function are rejected with an error.",
 ["inputs"],"Every finite string without NUL as an expression.",
 "Tests evaluate well-formed expressions and a handful of malformed ones.",
 ["src/xpath_impl/lexer.rs","src/xpath_impl/parser.rs"],["Lexer::new","Lexer::next_token","compile_xpath"])
p("C12","Operators bind and associate as in the XPath 3.1 grammar",
 "An expression without parentheses has the same value as the one fully parenthesised according to the XPath 3.1 precedence table: from loosest to tightest ',', 'for/let/some/every/if', 'or', 'and', comparisons, '||', 'to', '+ -', '* div idiv mod', 'union |', 'intersect except', 'instance of', 'castable as', 'cast as', '=>', unary '+ -', '!', paths; binary arithmetic and set operators associate to the left. White space and comments between tokens never change the meaning.",
 ["programs"],"Every expression built from those operators, to any depth and length.",
 "Tests check single operators and a few pairs; the number of operator pairs and chains is far larger.",
 ["src/xpath_impl/parser.rs","src/xpath_impl/lexer.rs"],["compile_xpath","parse_main","Lexer::new"])
p("C13","Integer arithmetic is exact or an error",
 "Adding, subtracting, multiplying, negating and taking the absolute value of integers gives the mathematically exact integer, or an error when it does not fit the 64-bit range; it never wraps and never panics. Integer division truncates toward zero, the remainder has the dividend's sign, (a idiv b)*b + (a mod b) = a, and a zero divisor is an error.",
 ["inputs"],"All pairs of 64-bit integers.",
 "Tests use small numbers; the boundary cases lie at the ends of the 2^128 input pairs.",
 ["src/xpath_impl/xitem.rs","src/xpath_impl/oper.rs","src/xpath_impl/func.rs"],["xitem_numeric_add","xitem_numeric_subtract","xitem_numeric_multiply","xitem_numeric_integer_divide","xitem_numeric_mod","xitem_numeric_unary_minus","xitem_numeric_operation","fn_abs"])
p("C14","Mixed numeric operands are promoted to the wider type",
 "The result of +, -, * and mod is an integer for two integers, a double as soon as one operand is a double, and a decimal otherwise; 'div' of two integers is a decimal. The value is that of the operation on the promoted operands in their given order; division or remainder by an integer or decimal zero is an error while division by a double zero follows IEEE 754, and a non-numeric operand is an error.",
 ["inputs"],"All pairs of numeric values of all three numeric types, including NaN, infinities and signed zeros.",
 "Tests check a few type pairs with ordinary values.",
 ["src/xpath_impl/xitem.rs","src/xpath_impl/oper.rs"],["xitem_numeric_operation","xitem_numeric_divide","xitem_numeric_mod","xitem_numeric_unary_plus","xitem_numeric_unary_minus","op_numeric_operation"])
p("C15","Value and general comparisons mean what XPath says",
 "A value comparison of two comparable single items gives the order of the two numbers, of the two strings by code point, or false<true; 'le' and 'ge' are 'less or equal' and 'greater or equal' (so NaN is neither), 'ne' is the negation of 'eq', an empty operand gives the empty sequence and a longer operand or incomparable types an error. A general comparison is true exactly when some pair of items, one from each side, satisfies the relation, and numbers, strings and booleans are never equal across kinds.",
 ["inputs"],"All pairs of items, and all pairs of sequences of any length.",
 "Tests compare a few constants; existential semantics over arbitrary sequences and NaN are not covered.",
 ["src/xpath_impl/xsequence.rs","src/xpath_impl/xitem.rs","src/xpath_impl/oper.rs"],["value_comparison","general_comparison","general_compare_le","value_compare_le","xitem_numeric_comparison","xitem_compare","xitem_boolean_less_than"])
p("C16","Effective boolean value and logic",
 "The effective boolean value is false for the empty sequence, a false boolean, an empty string, zero and NaN; true for a true boolean, a non-empty string, any other number, and any sequence starting with a node; everything else is an error. 'and', 'or', 'not', 'boolean', 'if', 'some' and 'every' agree with it, and 'if' evaluates only the chosen branch.",
 ["inputs"],"Every sequence of items of every kind, every length.",
 "Tests cover one example per kind.",
 ["src/xpath_impl/xsequence.rs","src/xpath_impl/eval.rs","src/xpath_impl/func.rs"],["XSequence::effective_boolean_value","fn_not","fn_boolean","evaluate_xnode"])
p("C17","Union, intersect and except are set operations in document order",
 "The result contains exactly the nodes in either, both, or only the first operand, each node once, in document order, whatever the order and repetitions in the operands. 'is', '<<' and '>>' compare identity and document position of two single nodes.",
 ["inputs"],"All pairs of node sequences with any order and repetition.",
 "Tests use operands that are already sorted and free of repetitions.",
 ["src/xpath_impl/oper.rs","src/xpath_impl/eval.rs"],["op_union","op_intersect","op_except","op_node_compare","EvalEnv::sort_by_doc_order","EvalEnv::compare_by_doc_order"])
p("C18","The axes of every node are exactly its related nodes, in axis order",
 "For every non-attribute node the axes self, ancestor, descendant, preceding and following are pairwise disjoint and together contain exactly the non-attribute nodes of the tree. Child, parent, attribute, sibling and or-self axes have their standard members, forward axes deliver them in document order and reverse axes in reverse document order (as seen by positional predicates).",
 ["inputs"],"Every tree shape and every context node.",
 "Tests navigate one small tree from one context node.",
 ["src/xpath_impl/eval.rs"],["array_ancestor","array_descendant","array_following","array_following_sibling","array_preceding","array_preceding_sibling","array_ancestor_or_self","array_descendant_or_self","match_loc_step"])
p("C19","A path returns each selected node once, in document order",
 "A path made of node steps returns exactly the nodes reachable step by step from the context, without repetition and in document order, independent of how many ways a node is reached; '//' stands for any depth and a leading '/' for the root of the context's tree. A path whose last step yields atomic values returns one result per context node, in order, and mixing nodes and atomic values in the last step is an error.",
 ["inputs","programs"],"Every tree and every sequence of steps, including steps that reach the same node along several routes.",
 "Tests use a few paths on one tree, mostly without multiple routes.",
 ["src/xpath_impl/eval.rs"],["match_location_path","match_loc_step","EvalEnv::sort_by_doc_order"])
p("C20","Predicates see the right position and size and keep order",
 "A filter keeps exactly the items whose predicate holds, in their original order: an integer predicate holds for the item at that 1-based position, a decimal or double one for the item at exactly that position, any other predicate by its truth value (no truth value: an error), where position() is the item's 1-based position among the items that passed the previous predicates and last() their number. In a path step and on the right of '!' they are likewise those of the item at hand, and the surrounding expression's own position() and last() are unaffected afterwards.",
 ["inputs","programs"],"Every sequence length, every position and every chain of predicates.",
 "Tests check particular positions on short sequences.",
 ["src/xpath_impl/eval.rs"],["filter_by_predicates","filter_by_predicate","filter_nodeset_by_predicates"])
p("C21","Sequence functions are the list operations they are named after",
 "subsequence, head, tail, insert-before, remove, reverse, index-of, count, empty, exists and the 'to' operator return exactly the items at the positions the XPath functions specification gives, in order, for every position argument including zero, negative and beyond-the-end ones. No item is lost, repeated or reordered otherwise, and no position argument makes them panic.",
 ["inputs"],"Every sequence, every position and length argument over the whole 64-bit range.",
 "Tests use three-item sequences and in-range positions.",
 ["src/xpath_impl/func.rs","src/xpath_impl/oper.rs"],["fn_subsequence","subcollection_index_sub","fn_insert_before","fn_remove","fn_reverse","fn_head","fn_tail","fn_index_of","fn_count","op_to"])
p("C22","String functions work on characters, as specified",
 "substring, string-length, concat, string-join, contains, starts-with, ends-with, substring-before, substring-after, translate, upper/lower-case, normalize-space, string-to-codepoints and codepoints-to-string return what the XPath functions specification says, counting Unicode characters. So substring-before(s,t) || t || substring-after(s,t) = s whenever t occurs in s, codepoints-to-string inverts string-to-codepoints, and translate maps each character by its first occurrence in the map string. A node argument counts as its string value, which for an element is the text inside it, without comments and instructions.",
 ["inputs"],"All strings over all Unicode characters, and all position arguments.",
 "Tests use short ASCII strings.",
 ["src/xpath_impl/func.rs"],["fn_substring","fn_translate","fn_normalize_space","fn_substring_before","fn_substring_after","fn_contains","fn_starts_with","fn_ends_with","fn_string_join","fn_codepoints_to_string"])
p("C23","Aggregates and rounding depend on all items",
 "count, sum, avg, min and max of a sequence of numbers are the number of items, their sum, the sum divided by the count, and the least and greatest item, for every length; sum of the empty sequence is 0 and the others are empty. abs, floor, ceiling and round return the specified whole number in the argument's own type.",
 ["inputs"],"Sequences of any length of numbers of any numeric type (min and max: other than NaN).",
 "Tests aggregate two or three items.",
 ["src/xpath_impl/func.rs"],["fn_sum","fn_avg","fn_max","fn_min","fn_round","fn_floor","fn_ceiling","fn_abs"])
p("C24","castable as predicts cast as; casts keep values",
 "'E castable as T' is true exactly when 'E cast as T' succeeds, and the result of a successful cast is an instance of T. Casting an integer or boolean to string and back, or an integer to decimal or double and back within the exactly representable range, returns the original value.",
 ["inputs"],"All items of all kinds, all target types, with and without '?'.",
 "Tests list a few pairs.",
 ["src/xpath_impl/xsequence.rs","src/xpath_impl/xitem.rs"],["XSequence::castable_as","XSequence::cast_as","XItem::cast_as","XItem::castable_as"])
p("C25","Maps and arrays are persistent finite maps and lists",
 "A map constructor holds exactly the given entries and rejects a repeated key; map:size, map:keys, map:contains, map:get, '?' look-up and a call of the map find exactly them, keys being compared by kind and value. An array constructor holds the given members in order; array:size, array:get, '?' look-up and a call of the array give them by 1-based position, a call with a position out of range is an error, and array:flatten lists all items of all members in order.",
 ["inputs","programs"],"All maps and arrays, all keys and positions.",
 "Tests apply each function once to a fixed value.",
 ["src/xpath_impl/func.rs","src/xpath_impl/xitem.rs"],["map_size","map_keys","map_contains","map_get","array_size","array_get","array_flatten","XItem::map_keys","XItem::map_get","XItem::array_get","convert_xnode_to_map_array"])
p("C26","A variable is visible exactly in its scope",
 "A variable reference yields the value bound by the innermost enclosing for, let, some, every or function parameter of that name, in an inline function too where it was written; after the binding expression has been evaluated the outer bindings are as before, also when a quantifier stops early. 'for' evaluates its body once per item in order and concatenates the results; 'some' and 'every' are the existential and universal quantifier over all combinations.",
 ["programs","inputs"],"Every nesting and shadowing of binders, every sequence length.",
 "Tests nest two binders without shadowing or reuse after early exit.",
 ["src/xpath_impl/eval.rs"],["EvalEnv::set_var","EvalEnv::get_var","EvalEnv::remove_var","evaluate_xnode","call_inline_func"])
p("C27","instance of follows the type hierarchy and the occurrence sign",
 "'V instance of T' is true exactly when every item of V matches the item type and the number of items fits the occurrence indicator (one, '?' at most one, '*' any, '+' at least one). Derivation between atomic types is reflexive and transitive and every integer is a decimal but not conversely. A map and an array are functions; item() admits every item.",
 ["inputs"],"All sequences, all implemented item types (atomic, node kinds with and without name, item(), function, map and array tests) and occurrence indicators.",
 "Tests try some dozens of value/type pairs.",
 ["src/xpath_impl/eval.rs"],["match_sequence_type","match_occurence","derives_from","match_item_type"])
p("C28","Node tests select by kind and name only",
 "A name test on an axis keeps exactly the nodes of the axis's principal kind with that name, '*' all of them, 'p:*' and '*:n' those with that prefix or local part; kind tests keep exactly the nodes of that kind. The selection keeps the axis order and never depends on neighbouring nodes.",
 ["inputs"],"All nodes, all axes and all tests.",
 "Tests use a few tests on a few nodes.",
 ["src/xpath_impl/eval.rs"],["match_node_test","match_name_test","match_kind_test"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
