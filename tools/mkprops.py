"""Regenerates properties.jsonl (kept so that the statements live in one readable place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))

prop("C01", "A scalar type accepts exactly the values RFC 7950 says it contains",
 "For every YANG built-in scalar type with any combination of range, length, pattern, enum, bit, base and union-member restrictions, the membership test is true for a value exactly when the value has the right kind and satisfies every restriction, with all interval bounds inclusive. For a value of any other kind the answer is a plain no, never an exception. A refusal always leaves a non-empty error tag and message for the report.",
 ["inputs", "programs"], "all types built from restrictions, all Python values that the JSON or XML decoders can deliver",
 "The tests probe a few values of a few types; acceptance is a statement over every integer, string, byte string, decimal and every list of intervals.",
 ["yangson/datatype.py", "yangson/constraint.py"],
 [("__contains__ of every data type class", "yangson/datatype.py"), ("Intervals.__contains__", "yangson/constraint.py")],
 ["val in type", "InstanceNode.validate"])

prop("C02", "JSON encoding of scalars is RFC 7951 exact, lossless and total",
 "For every scalar type and every value it contains, encoding to the JSON form and decoding again gives back an equal value, and the JSON form uses exactly the representation RFC 7951 prescribes for the type (64-bit integers and decimals as strings, small integers as numbers, empty as [null], and so on); for a union this holds for values whose encoding no earlier member type accepts. Decoding arbitrary JSON never fails with anything but the documented raw-data errors, and never yields a value of a kind the type cannot hold. The same holds for whole data trees: decoding a valid tree and encoding it again gives an equal JSON document.",
 ["inputs", "programs"], "all scalar types, all contained values, all JSON documents",
 "The tests round-trip one example document; totality and losslessness range over every value and every malformed document.",
 ["yangson/datatype.py", "yangson/schemanode.py", "yangson/instance.py"],
 [("from_raw / to_raw of every data type class", "yangson/datatype.py"), ("from_raw of terminal, internal and sequence nodes", "yangson/schemanode.py"), ("raw_value", "yangson/instance.py")],
 ["DataModel.from_raw", "InstanceNode.raw_value"])

prop("C03", "Canonical text of a value is canonical and parses back to the value",
 "For every scalar type and every value it contains, the canonical string is the RFC 7950 canonical form and parsing it with the same type yields an equal value (for a union: unless an earlier member type also accepts the text). Two contained values have the same canonical string exactly when they are equal. Parsing arbitrary text either yields a value of the right kind or reports failure by returning nothing, never by an undocumented exception.",
 ["inputs", "programs"], "all scalar types, all contained values, all strings",
 "Tests compare a handful of literals; canonicity is an injectivity and inverse statement over all values, with corner cases (scaled zeros, tiny decimals, bit order, signs) outside the samples.",
 ["yangson/datatype.py"],
 [("canonical_string / parse_value / from_yang of every data type class", "yangson/datatype.py")],
 ["str(instance)", "instance identifiers", "default values"])

prop("C04", "Range and length restrictions and enum/bit numbering follow RFC 7950",
 "Parsing a range or length expression over a base interval list yields exactly the set the expression denotes, with min and max standing for the bounds of the type being restricted, wherever in the expression they are allowed to occur. A part with an unreadable bound, or with more than two bounds, is rejected with the documented error. Enum values and bit positions that are not given explicitly are one more than the highest assigned so far, starting at zero, for every sequence of explicit and implicit items.",
 ["inputs", "programs"], "all restriction expressions over all base intervals, all sequences of enum/bit substatements",
 "The shipped modules contain a handful of ranges and enums; the numbering rule and the min/max rule quantify over all sequences.",
 ["yangson/constraint.py", "yangson/datatype.py"],
 [("Intervals.restrict_with", "yangson/constraint.py"), ("EnumerationType._handle_properties, BitsType._handle_properties, sorted_enums, sorted_bits", "yangson/datatype.py")],
 ["DataModel construction", "val in type"])

prop("C05", "Schema-pattern matching decides exactly the sets of members a node allows",
 "For every schema pattern and content type, an object's member set is accepted exactly when it is one of the sets the pattern denotes under the usual interleaving semantics of mandatory, optional, choice and conditional parts, and the outcome does not depend on the order in which members are consumed. A member is refused exactly when no allowed set extends what was consumed so far with it. When mandatory content is missing, the report names members that really are missing.",
 ["inputs", "programs", "configurations"], "all schema patterns (any nesting), all member sets and orders, all content types, all when outcomes",
 "The tests exercise the patterns of one data model on a few documents; acceptance is a language-equality statement over all patterns.",
 ["yangson/schpattern.py", "yangson/schemanode.py"],
 [("nullable / deriv / combine of every pattern class", "yangson/schpattern.py"), ("InternalNode._check_schema_pattern", "yangson/schemanode.py")],
 ["InstanceNode.validate"])

prop("C06", "The allowed-member pattern of a node is the one its YANG statements imply",
 "For every internal schema node the set of allowed members implied by its children is exactly: mandatory leaves, anydata, choices, lists with a positive minimum and non-presence containers having mandatory descendants are required; all other children are optional; cases are exclusive alternatives; children with a when condition count only when it holds; and state data is neither required nor allowed when only configuration is validated. A choice accepts at most one of its cases, and must be present if it is mandatory.",
 ["programs", "configurations"], "all schema trees, all content types",
 "Only the mandatory/choice/when combinations of one sample module are tested; the property ranges over all trees of such statements.",
 ["yangson/schemanode.py", "yangson/enumerations.py"],
 [("_pattern_entry, _schema_pattern, _make_schema_patterns, mandatory properties, content_type", "yangson/schemanode.py")],
 ["InstanceNode.validate", "DataModel.schema_digest"])

prop("C07", "Instance trees are persistent: no operation changes an existing node",
 "No navigation, query, editing, merging, default-filling, validation or serialisation operation on an instance node changes the value held by that node, by any of its ancestors, or by any other instance node obtained earlier. The result of an edit is a new node; every older node still shows exactly the data it showed before.",
 ["histories", "inputs"], "all sequences of operations on all instance trees",
 "Tests look at results of operations, not at every other live node after every sequence of them; the property quantifies over histories and aliasing.",
 ["yangson/instance.py", "yangson/instvalue.py", "yangson/schemanode.py"],
 [("put_member, delete_item, update, merge, insert_before, insert_after, _zip, _copy", "yangson/instance.py"), ("StructuredValue.copy", "yangson/instvalue.py"), ("_add_defaults, _default_instance, _merge", "yangson/schemanode.py")],
 ["InstanceNode.value of every node held by the application"])

prop("C08", "Navigation and editing in the instance tree touch exactly what they name",
 "Going down and straight back up, from any node and however deep, restores an equal tree; moving to a sibling, next or previous entry focuses exactly that item, with the right index and path. Writing, inserting or deleting an item yields a tree that, seen from the top, differs from the old one in that item only, with all other members and the order and number of all other entries unchanged. Access outside the existing items raises the documented error and nothing else.",
 ["histories", "inputs"], "all trees, positions and sequences of moves and edits",
 "The tests walk a few fixed routes in one document; the property quantifies over all arrays, indices (including negative ones), and edit sequences.",
 ["yangson/instance.py"],
 [("__getitem__, _member, _entry, sibling, next, previous, up, top, _zip, path, insert_before, insert_after, put_member, delete_item, update", "yangson/instance.py")],
 ["InstanceNode API"])

prop("C09", "Instance identifiers print, parse and resolve consistently",
 "For every node of every valid tree, the route reported for it leads back to that very node from the top, its printed form parses to an equal route, and peeking along a route gives the same value as going there, or nothing where going fails because the instance does not exist. Parsing arbitrary text as an instance identifier or a resource identifier either yields a route denoting exactly what the text says or raises the documented parser or schema error. All key values are covered, including ones with either kind of quote (but not both kinds in one value, which the notation cannot express), backslashes, slashes, commas, percent signs and non-ASCII characters.",
 ["inputs", "histories"], "all trees and nodes, all routes, all key strings, all texts",
 "Tests contain a dozen literal identifiers with tame key values; the inverse laws quantify over all strings and trees.",
 ["yangson/instance.py", "yangson/instroute.py", "yangson/parser.py"],
 [("InstanceIdParser, ResourceIdParser, MemberName, EntryIndex, EntryValue, EntryKeys, instance_route, goto, peek", "yangson/instance.py"), ("InstanceRoute.__str__", "yangson/instroute.py")],
 ["DataModel.parse_instance_id", "DataModel.parse_resource_id", "InstanceNode.instance_route"])

prop("C10", "Adding defaults adds exactly the defaults that are in use",
 "Adding defaults never changes or removes data that is present; every added leaf, leaf-list, container or case is one that is absent and whose default is in use under RFC 7950 (its own or its type's default, its case being the selected or default one, its when condition true, its content type wanted). Every default in use at an existing or non-presence parent is added, and applying the operation twice gives the same result as once.",
 ["inputs", "programs", "configurations"], "all schema trees, data trees and content types",
 "Tests check a few expected documents; in-use-ness depends on the whole combination of choices, presence, when and content type.",
 ["yangson/schemanode.py", "yangson/instance.py"],
 [("_default_instance, _add_defaults, _default_nodes, default_value, default_deep", "yangson/schemanode.py"), ("InstanceNode.add_defaults", "yangson/instance.py")],
 ["InstanceNode.add_defaults"])

prop("C11", "Merge is a keyed, recursive union in which the new value wins",
 "Merging a value into a node gives a tree that contains everything of the merged value and everything of the old one except scalars that the merged value supplies: objects merge member by member, lists merge entry by entry on equal keys, new entries follow the old ones in their original order, and leaf-lists and keyless lists gain exactly the entries they lacked. Merging the same value again changes nothing, and merging into an absent or empty node gives the merged value itself.",
 ["inputs"], "all pairs of trees of the same schema node",
 "One merge example is tested; the law quantifies over all pairs of trees, including equal keys in different positions.",
 ["yangson/instance.py"],
 [("merge, _merge_list, _merge_container", "yangson/instance.py")],
 ["InstanceNode.merge"])

prop("C12", "Identity derivation is the transitive, irreflexive closure of base statements",
 "An identity is reported as derived from another exactly when there is a non-empty chain of base statements from the first to the second among the identities of the implemented modules. The set of identities derived from one or from all of several bases is exactly that relation's image. Asking such questions, any number of times and in any order, never changes later answers.",
 ["programs", "histories"], "all identity graphs, all sequences of queries",
 "Tests ask a few questions of one small identity graph; closure and purity quantify over all graphs and query sequences.",
 ["yangson/schemadata.py"],
 [("is_derived_from, derived_from, derived_from_all, _process_identities", "yangson/schemadata.py")],
 ["identityref validation", "derived-from(), derived-from-or-self()", "schema digest"])

prop("C13", "if-feature expressions evaluate by RFC 7950 grammar and precedence",
 "For every if-feature expression that the RFC 7950 grammar generates, and every set of supported features, evaluation gives the boolean value of the expression, with not binding tighter than and, and and tighter than or; blank space around it is ignored, and no feature is named not, and or or. Every other text is rejected with the documented error. A statement is in effect exactly when all its if-feature expressions are true.",
 ["inputs", "configurations"], "all strings, all sets of supported features",
 "Tests evaluate a fixed list of expressions; the grammar is infinite and includes feature names that begin with operator words.",
 ["yangson/schemadata.py", "yangson/parser.py"],
 [("FeatureExprParser, if_features", "yangson/schemadata.py")],
 ["DataModel construction"])

prop("C14", "XPath 1.0 core numbers, strings and booleans compute what the standard says",
 "For all argument values, including NaN, infinities, signed zero, negative positions and empty strings, the XPath arithmetic operators, type conversions and core string, number and boolean functions return exactly the value XPath 1.0 defines, of the type it defines. A leaf converts to a number through its canonical text, except that a boolean leaf counts as 1 or 0. An argument that is not of the required node-set type raises the documented type error, and no other Python error occurs.",
 ["inputs"], "all numbers (including special values), strings, booleans and node-sets as arguments",
 "Tests evaluate a few dozen literal expressions; the standard's rounding and special-value rules are about all arguments.",
 ["yangson/xpathast.py"],
 [("_eval_* methods of expression and function nodes", "yangson/xpathast.py")],
 ["must, when, leafref path evaluation", "DataModel-independent XPath evaluation"])

prop("C15", "XPath comparisons, predicates and node-sets follow XPath 1.0",
 "For all operands of all types, comparison of values and node-sets (nodes other than leaves and leaf-list entries take no part, and a boolean leaf compares with a number as 1 or 0), and boolean connectives give the truth value XPath 1.0 defines; a numeric predicate keeps exactly the node at that position and any other predicate exactly the nodes for which it is true; each axis delivers exactly the nodes on it, siblings being the other entries of the same list. A union of node-sets contains every node of either operand exactly once.",
 ["inputs"], "all operand types and values, all node-sets and context positions",
 "Only a few comparisons on one tree are tested; the conversion matrix and positional rules are universally quantified.",
 ["yangson/xpathast.py", "yangson/nodeset.py", "yangson/instance.py"],
 [("EqualityExpr, RelationalExpr, AndExpr, OrExpr, UnionExpr, Step, _apply_predicates", "yangson/xpathast.py"), ("NodeSet", "yangson/nodeset.py"), ("_children, _descendants, _ancestors, siblings", "yangson/instance.py")],
 ["must, when, leafref path evaluation"])

prop("C16", "List constraints accept exactly the lists that satisfy them",
 "A list or leaf-list passes validation exactly when its entry count is within min-elements and max-elements, every entry of a keyed list has all its keys, no two entries have equal keys, no two entries agree on all leaves of a unique statement that are all present, and configuration leaf-lists have no duplicate. Each violation is reported with the error tag the library documents for it.",
 ["inputs"], "all lists of entries, all key and unique specifications, all bounds",
 "The tests break each constraint once; exactness over all entry sequences (position of the duplicate, partially missing unique leaves, boundary counts) is untested.",
 ["yangson/schemanode.py"],
 [("SequenceNode._check_cardinality, ListNode._check_keys, _check_unique, LeafListNode.check_duplicates", "yangson/schemanode.py")],
 ["InstanceNode.validate"])

prop("C17", "The YANG parser reads every module text as RFC 7950 section 6 says",
 "For every text that the YANG grammar generates, the parsed statement tree has exactly the keywords, prefixes, arguments and nesting of the text: quoted strings are unescaped and concatenated, double-quoted multi-line strings are trimmed as the RFC says, comments and white space are ignored. Tolerated: bare quotes and the end of a comment inside unquoted strings (the former as in YANG 1), any character inside comments and arguments, and a carriage return as the very last character. Every other text is rejected with a documented error: an invalid argument for an unknown escape, otherwise a parser error that points inside the text. Parsing terminates on all inputs whose nesting and whose chains of concatenated strings the interpreter's stack can hold.",
 ["inputs"], "all texts",
 "Tests parse a set of well-formed module files; escapes, comments in odd places and malformed input are a statement over all strings.",
 ["yangson/statement.py", "yangson/parser.py"],
 [("ModuleParser", "yangson/statement.py"), ("Parser", "yangson/parser.py")],
 ["DataModel construction"])

prop("C18", "Names with or without module qualifiers resolve to one and the same node",
 "An instance name, schema path or qualified name resolves to a schema node exactly when a node with that local name and module exists at that place, an absent module meaning the parent's one; printing the name or path of any node of the data tree (outside operations and notifications) and resolving it gives back that node. A prefix resolves to the module bound to it in the module, or the submodule, where the text occurs. Unknown names and prefixes raise the documented error.",
 ["inputs", "programs"], "all schema trees, nodes, names and prefix maps",
 "Tests resolve a few names in one model; the inverse laws are over all nodes including equal local names from different modules.",
 ["yangson/schemanode.py", "yangson/schemadata.py"],
 [("_iname2qname, iname, get_child, get_data_child, get_schema_descendant, data_path", "yangson/schemanode.py"), ("prefix2ns, resolve_pname, translate_pname, path2route, sni2route, split_pname", "yangson/schemadata.py")],
 ["DataModel.get_schema_node", "DataModel.get_data_node", "InstanceNode.__getitem__"])

prop("C19", "Equality of structured values is structural and agrees with hashing",
 "Two array or object values are equal exactly when they have the same kind and equal content (the same entries in the same order, or the same member names with equal values in any order), irrespective of timestamps. Equal values have equal hashes, and copying a value gives an equal but independent one.",
 ["inputs"], "all pairs of structured values",
 "Tests compare a few values; equality that goes through hashes is wrong only on collisions, which sampled tests do not meet.",
 ["yangson/instvalue.py"],
 [("StructuredValue.__eq__, __hash__, copy", "yangson/instvalue.py")],
 ["value == value", "merge", "leaf-list duplicate and unique checks"])

prop("C20", "XML encoding of a data tree decodes back to the same tree",
 "For every valid data tree, operation or notification content without anydata, annotations and empty lists (which XML cannot carry), the XML document produced for it is decoded to an equal tree, with each element in the namespace of its module; a union value comes back as the first member type that accepts its text, and carriage returns are subject to XML's line-end normalisation. Decoding arbitrary XML text content for a scalar either yields a value of the type's kind or reports the documented raw-data error, and a document with elements the schema does not define is refused with a documented error.",
 ["inputs", "programs"], "all valid trees, all scalar types, all element texts",
 "The tests convert one document; the inverse law is over all trees and values.",
 ["yangson/instance.py", "yangson/schemanode.py", "yangson/datatype.py"],
 [("InstanceNode.to_xml", "yangson/instance.py"), ("from_xml of schema nodes", "yangson/schemanode.py"), ("from_xml / to_xml of data types", "yangson/datatype.py")],
 ["DataModel.from_xml", "InstanceNode.to_xml"])

prop("C21", "Validation checks every node in scope and reports each violation",
 "Validating a tree succeeds exactly when every node of it satisfies all checks in the requested scope: type and membership checks under the syntax scope; must expressions, references to existing instances and list constraints under the semantics scope; and both under the full scope. A must expression fails validation exactly when it is false in the node's context, and a leaf or leaf-list of leafref or instance-identifier type that requires an instance exactly when no referenced instance exists.",
 ["inputs", "configurations"], "all trees, scopes and content types, all positions of a violation",
 "The tests validate one good document and a few mutations of it; that no position is skipped is a statement about all trees.",
 ["yangson/schemanode.py", "yangson/enumerations.py", "yangson/instance.py"],
 [("_validate of every schema node class, _check_must_expressions, TerminalNode._validate", "yangson/schemanode.py"), ("ValidationScope, ContentType", "yangson/enumerations.py")],
 ["InstanceNode.validate"])

prop("C22", "Modules are processed in dependency order and identified by set content",
 "The order in which the implemented modules are processed places every imported one before its importer whenever the import relation among them (imports of a submodule counting as its module's) has no cycle, contains each of them and its submodules once, and a cyclic relation is reported by the documented error. The module-set identifier depends only on which module revisions are present, not on the order in which the library lists them, and differs whenever that content differs.",
 ["programs", "configurations"], "all import graphs, all module sets and listing orders",
 "Tests load one library; topological correctness and order independence quantify over all graphs and permutations.",
 ["yangson/schemadata.py", "yangson/datamodel.py"],
 [("SchemaData._process_imports", "yangson/schemadata.py"), ("DataModel.module_set_id", "yangson/datamodel.py")],
 ["DataModel construction", "DataModel.module_set_id"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
