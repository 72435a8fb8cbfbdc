#!/usr/bin/env python3
"""Single source of properties.jsonl (run by hand; the output is committed)."""
import json, os, sys
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["omegaconf/"+f if not f.startswith(("omegaconf","pydevd")) else f for f in files],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
            observe_at=observe or [], hook_needed=None)))

prop("C01", "A dict config behaves as an ordered mapping over any history",
 "For every sequence of item and attribute reads, writes, deletes, pop, get, setdefault, update, clear, `in`, len and iteration, a config dict - untyped, with declared key and value types and contents of these types, or with values that are interpolations (they act as the values they read as) - gives the same results and the same final contents, in the same key order, as a plain ordered dict (with '???' values counting as absent for `in`, get-with-default, setdefault and pop-with-default, and as an error when read). Attribute and item access to a string key always agree. An operation that raises leaves the contents unchanged.",
 ["histories","inputs"], "all operation sequences over keys of every supported key type (str, int, float, bool, bytes, enum) and values of every supported primitive and nested container type",
 "Unit tests apply one or two operations to fixed dicts; interactions between deletes, re-inserts, missing values, nested replacement and failing operations over long histories are never composed.",
 ["dictconfig.py","basecontainer.py"], [("mapping operations","omegaconf/dictconfig.py DictConfig"),("node creation / assignment","omegaconf/basecontainer.py _set_item_impl")], ["OmegaConf.to_container","DictConfig operations"])
prop("C02", "A list config behaves as a Python list over any history",
 "For every sequence of list operations (index and slice reads with any start/stop/step, item and slice assignment, del, append, insert at any index, extend, +, +=, pop, remove, clear, sort, reverse, index, count, `in`, iteration, len), a config list - untyped, with a declared element type and values of that type, or with items that are interpolations (they act as the values they read as) - gives the same results and contents as a Python list, and raises where the Python list raises. An operation that raises leaves the contents unchanged. After every operation, each element's reported key is its current position.",
 ["histories","inputs"], "all operation sequences, all slices including negative and out-of-range bounds and steps, elements of every supported type",
 "Tests check a handful of slices and inserts; the space of (length, start, stop, step) and histories mixing re-indexing operations is not sampled (the pinned tree had wrong results for thousands of slices).",
 ["listconfig.py","basecontainer.py"], [("list operations","omegaconf/listconfig.py ListConfig"),("re-keying of nodes","omegaconf/listconfig.py _update_keys")], ["OmegaConf.to_container","OmegaConf.missing_keys","error full_key"])
prop("C03", "Creating a config and converting it back returns the same data",
 "For every supported nested Python structure, converting it to a config and back to a plain container yields an equal structure of equal leaf types with dict order preserved (tuples become lists). The conversions share no mutable state: later changes to the input, to the output, or to the config never show up in one another. Creating a config from an existing config gives an equal, independent config.",
 ["inputs"], "all nested dicts/lists/tuples of str, int, float, bool, None, bytes, Path and Enum leaves, with every supported key type, to any depth",
 "Tests use small fixed structures; leaf-type preservation (True vs 1, 1.0 vs 1), odd keys and aliasing at every nesting position are not enumerated.",
 ["omegaconf.py","dictconfig.py","listconfig.py","basecontainer.py"], [("creation","omegaconf/omegaconf.py _create_impl,_node_wrap"),("conversion","omegaconf/basecontainer.py _to_content")], ["OmegaConf.create","OmegaConf.to_container"])
prop("C04", "A config written to YAML loads back equal",
 "For every config, loading the YAML text it is dumped to (through a string, a text stream, or a file written by save and read by load) gives an equal config: same keys and key types, same values and value types, same order, interpolation and '???' strings kept verbatim, enums as their names. This holds for every Unicode text as a key or value, including text that looks like another YAML type. With resolve=True the loaded config equals the resolved contents, and sort_keys=True only changes key order.",
 ["inputs"], "all configs over all supported key and value types; strings over all of Unicode (no surrogates), biased to YAML-significant text",
 "Tests round-trip a few dozen strings; which strings need quoting depends on the interplay of two different implicit-resolver tables (dumper and loader), over an unbounded set of strings.",
 ["_utils.py","omegaconf.py"], [("string quoting when dumping","omegaconf/_utils.py OmegaConfDumper"),("loader resolvers and constructors","omegaconf/_utils.py get_yaml_loader"),("save/load/to_yaml","omegaconf/omegaconf.py")], ["OmegaConf.to_yaml","OmegaConf.save","OmegaConf.load"])
prop("C05", "Pickling and copying preserve a config and detach it",
 "Pickling and unpickling, copy.copy, copy.deepcopy and the copy() method of any config, typed or untyped, whole or sub-node, produce a config with equal contents (missing values and interpolations preserved), the same type information (object type, declared type, key and element types, optionality) at every node, and the same flags. Whatever is later done to either one never affects the other, and the copy keeps validating, resolving interpolations and inheriting flags as the original does.",
 ["inputs","histories"], "all configs (untyped, structured, lists, unions, missing/None/interpolated containers) and subsequent edit sequences on either side",
 "Tests pickle and copy a few fixed configs and compare them once; per-node metadata at all depths and independence under later edits are not exercised.",
 ["base.py","basecontainer.py","dictconfig.py","listconfig.py","nodes.py"], [("__getstate__/__setstate__","omegaconf/basecontainer.py, omegaconf/base.py"),("__deepcopy__","omegaconf/dictconfig.py, listconfig.py, nodes.py, base.py UnionNode")], ["pickle","copy"])
prop("C06", "Config equality means equal contents",
 "Two configs, or a config and a plain container, compare equal exactly when they hold the same keys with equal values (list items in order, dict order ignored), where an interpolation counts as the value it resolves to, unresolvable interpolations are equal only when textually equal, and missing equals only missing. Equality is symmetric and reflexive, != is its negation, and equality neither depends on types, flags or parents nor modifies its operands.",
 ["inputs"], "all pairs of NaN-free configs, including near-copies differing in a single leaf at any depth",
 "Tests list fixed pairs; symmetric behaviour and single-difference sensitivity at arbitrary depth with interpolations, missing and None mixed in is a pairwise universal claim.",
 ["basecontainer.py","dictconfig.py","listconfig.py","nodes.py"], [("_item_eq","omegaconf/basecontainer.py"),("_dict_conf_eq/_list_eq","omegaconf/dictconfig.py, listconfig.py")], ["=="])
prop("C07", "Merging untyped configs gives the documented result",
 "Merging any sequence of untyped configs yields, key by key, the last configuration's value: dicts are merged recursively, lists are replaced (or extended, or extended with the items not already present, according to list_merge_mode), None, scalars and interpolations overwrite, '???' never overwrites an existing value, and merging a dict over an interpolation to a dict merges into a copy of its target. Keys keep the position of first appearance. merge and merge_with agree, merge modifies none of its inputs and shares nothing with them, and unsafe_merge returns the same result.",
 ["inputs"], "all sequences of 1-4 nested containers (as config objects or plain containers) and all list merge modes",
 "Tests enumerate about a hundred fixed merges; combinations of kinds (dict/list/scalar/None/missing/interpolation) at each position, of modes, and of chains are unbounded.",
 ["basecontainer.py","omegaconf.py"], [("_map_merge/_list_merge","omegaconf/basecontainer.py"),("merge/unsafe_merge","omegaconf/omegaconf.py")], ["OmegaConf.merge","merge_with","unsafe_merge"])
prop("C08", "Merging into a schema keeps it valid and typed",
 "Merging any data or config into a config created from a structured class either raises a documented error, or gives a config in which every field still has its declared type and holds a value legal for that type (converted by the same rules as assignment), and equals the field-by-field update of the schema. A value that is illegal for its field, an unknown field, or a config of an unrelated structured class at a structured field is always rejected, at every depth, inside dicts and lists of structured elements too. A class, instance or structured config merged over untyped data of its shape (without lists) types that data in the same way: values of the class win, its missing fields keep the earlier values, converted, and illegal ones are rejected. OmegaConf.merge never modifies its inputs, even when it raises.",
 ["inputs"], "all schemas over the supported annotations (nested classes, Optional, Dict, List, Union, Enum) and all override data, valid and invalid, dict or config, merged in sequence",
 "Tests cover selected schema/override pairs; the product of annotation, existing state (value/None/missing/interpolation) and override kind at each depth is not enumerated.",
 ["basecontainer.py","dictconfig.py","listconfig.py"], [("_map_merge, _validate_merge, _update_types","omegaconf/basecontainer.py, dictconfig.py"),("_deep_update_type_hint","omegaconf/basecontainer.py")], ["OmegaConf.merge"])
prop("C09", "Typed fields never hold values of a wrong type",
 "Whatever sequence of assignments, appends, inserts, slice assignments, updates, merges and deletions is applied to a structured config, and whether each succeeds or fails, every field, dict entry and list element always holds a value of its declared type, None only where optional, '???', or an interpolation. Reading a field of simple type whose interpolation resolves to something illegal raises instead of returning it. A failed single-item operation leaves the config exactly as it was.",
 ["histories"], "all operation histories over structured configs covering every supported annotation, with legal, convertible and illegal values",
 "Tests assign one bad value to a fresh object; states reached after several operations (copied nodes, replaced containers, None then dict, cross-config assignment) are not explored.",
 ["dictconfig.py","listconfig.py","basecontainer.py","nodes.py","base.py"], [("_validate_set, _set_item_impl","omegaconf/dictconfig.py, listconfig.py, basecontainer.py"),("validate_and_convert","omegaconf/nodes.py"),("interpolation result conversion","omegaconf/base.py")], ["OmegaConf.to_container","attribute reads"])
prop("C10", "Each declared type converts or rejects values by its documented rule",
 "A field declared int, float, bool, str, bytes, Path, an Enum, Optional of these, or a Union of primitives accepts exactly the documented inputs and stores exactly the documented conversion (int from int and int-like strings, never from float or bool; float from int, float and numeric strings; bool from bool, int and yes/no/on/off/true/false strings; str from any simple value except bytes; bytes only from bytes; Path from str and Path; Enum from member, name, 'Class.NAME' or int value; Union by exact type without conversion), and rejects every other input with ValidationError, leaving the old value in place. The rule is the same for a field, a typed dict entry, a typed list element, a constructor value, an interpolation result (simple types) and a standalone node. A typed dict takes keys that are instances of its key type (enum keys also by name or value, bool keys also 0 and 1) and rejects others with KeyValidationError.",
 ["inputs"], "all values (arbitrary strings, ints, floats, bools, bytes, paths, enums of several classes, containers, arbitrary objects) against all declared types, through every entry point",
 "Tests use a table of examples; the set of accepted strings is unbounded and the several entry points are separate code paths.",
 ["nodes.py","base.py","omegaconf.py","dictconfig.py"], [("_validate_and_convert_impl of each node class","omegaconf/nodes.py"),("UnionNode","omegaconf/base.py"),("_node_wrap","omegaconf/omegaconf.py")], ["assignment","create","merge","interpolation"])
prop("C11", "A read-only config cannot be changed",
 "While a node is read-only (its nearest explicit readonly setting, on itself or an ancestor, is True), every attempt to change its contents - item, attribute, slice or index assignment, del, pop, append, insert, extend, clear, sort, update, merge_with, in-place resolve, setdefault of a new key - raises and changes nothing in its contents, while all reads, copies and conversions still work. Nodes below an explicit readonly=False stay writable, and clearing the flag restores normal behaviour.",
 ["histories","inputs"], "all configs (untyped, structured incl. frozen and unions), all flag placements, all mutating operations with all values",
 "Tests try one mutator at a time on a flat config; each mutator on each node kind beneath each flag placement is a large product (the pinned tree let merges and resolve through).",
 ["base.py","basecontainer.py","dictconfig.py","listconfig.py","nodes.py","_impl.py","omegaconf.py"], [("readonly checks in each mutator","omegaconf/dictconfig.py, listconfig.py, basecontainer.py, nodes.py, base.py"),("flag lookup","omegaconf/base.py _get_flag")], ["OmegaConf.set_readonly","all mutators"])
prop("C12", "Struct mode and schemas forbid unknown keys",
 "While a dict node is in struct mode, or is backed by a structured class (unless struct is explicitly False on that very node), reading, writing, merging or updating a key it does not have raises and adds nothing, and deleting or popping an item raises and removes nothing; existing keys remain fully usable. open_dict, force_add and struct=False lift exactly this restriction. Struct mode never affects which keys exist or the values of existing keys.",
 ["histories","inputs"], "all configs, all placements of struct flags, all key-adding and key-removing operations at all depths",
 "Tests cover a few operations on flat configs; the combination of inherited flags, typed nodes, list elements and every route that can add a key is not enumerated.",
 ["dictconfig.py","basecontainer.py","omegaconf.py"], [("_validate_get, __delitem__, pop","omegaconf/dictconfig.py"),("update/open_dict","omegaconf/omegaconf.py")], ["OmegaConf.set_struct","open_dict"])
prop("C13", "Effective flags follow the nearest explicit setting",
 "At every moment the readonly/struct state of any node held in a config is its own explicit setting if it has one, otherwise that of its nearest ancestor that has one (none: unset): the flags given when it was made (without any, those of the config it was made from; frozen classes are read-only) or set since, however nodes were assigned, replaced, moved, merged, copied, re-indexed or deleted before and whatever was queried in between. Merging gives every container of the result the explicit settings of the last merged config that has one there. The context managers read_write, open_dict and flag_override restore each node's explicit setting on exit (value, or absence of one), including when the body raises and when they are nested.",
 ["histories","fault_sequences"], "all histories of flag settings, queries, structural edits, and nested context managers with exceptions, over trees of dicts and lists",
 "The flag lookup is cached per node; stale-cache errors need a particular query-edit-query history that unit tests do not compose.",
 ["base.py","omegaconf.py"], [("flags cache and its invalidation","omegaconf/base.py _get_flag,_invalidate_flags_cache,_set_parent"),("context managers","omegaconf/omegaconf.py flag_override, read_write, open_dict")], ["OmegaConf.is_readonly","OmegaConf.is_struct"])
prop("C14", "Interpolations resolve to the value they reference",
 "Reading a value made of interpolations gives what the documented rules define: absolute, relative and bracketed node references, chains, nested interpolations in keys, and string concatenation, with whole-value references keeping the target's type and containers dereferenced to their target. The result always reflects the current state of the config; a reference to a nonexistent key, to a missing value, to itself or in a cycle, raises the corresponding interpolation error instead of looping or returning something. Reading never changes the config.",
 ["inputs","histories"], "all configs whose leaves are generated interpolation expressions over the tree's paths (valid, dangling, missing, cyclic) and edits between reads",
 "Tests resolve fixed small configs; arbitrary reference graphs, depths of relative references through lists, and change-then-read histories are not generated.",
 ["base.py","grammar_visitor.py","grammar_parser.py"], [("_resolve_node_interpolation,_select_impl,_resolve_key_and_root","omegaconf/base.py"),("cycle memo","omegaconf/base.py"),("visitor","omegaconf/grammar_visitor.py")], ["cfg reads","to_container(resolve=True)"])
prop("C15", "Expressions evaluate to the value their grammar spells",
 "Every element of the documented interpolation grammar (null, booleans, ints and floats with underscores/exponents/inf/nan, unquoted and quoted strings with their escapes, nested lists and dicts, with any optional whitespace) evaluates, as a resolver argument or through oc.decode, to exactly the Python value it denotes, with strings preserved character for character. Any Python string can be embedded so that it comes back unchanged by the documented quoting and escaping rules.",
 ["inputs"], "all abstract values and all their renderings (quote style, escapes, spacing, case of keywords)",
 "Tests list a few hundred literal expressions; the grammar is recursive with context-dependent escapes (backslash parity before quotes, interpolations and string ends).",
 ["grammar_visitor.py","grammar_parser.py","omegaconf/grammar/OmegaConfGrammarLexer.g4","omegaconf/grammar/OmegaConfGrammarParser.g4"], [("visitor primitives, quoted values, escapes","omegaconf/grammar_visitor.py"),("lexer modes","omegaconf/grammar/OmegaConfGrammarLexer.g4")], ["resolver arguments","oc.decode"])
prop("C16", "Any string is parsed or cleanly rejected, without lasting effects",
 "Setting any string as a config value either succeeds or raises GrammarParseError, nothing else: strings without '${' are stored and read back verbatim, and strings whose interpolations are all escaped read back with exactly the documented unescaping. Whatever was parsed before, successfully or not, and in whichever thread, has no influence on how a string is parsed now. The outcome of setting a string is the same for every kind of field and container.",
 ["inputs","histories","schedules"], "all Unicode strings (biased to grammar-significant text), all sequences of parses mixing errors and entry rules, and concurrent parsing from several threads",
 "Tests feed a fixed list of malformed strings, each to a fresh state; the parser is cached and reused, so leftover lexer modes or token streams only show in sequences.",
 ["grammar_parser.py","_utils.py","nodes.py","grammar_visitor.py"], [("cached lexer/parser re-initialisation","omegaconf/grammar_parser.py parse"),("fast-path regular expression","omegaconf/grammar_parser.py SIMPLE_INTERPOLATION_PATTERN"),("interpolation detection","omegaconf/_utils.py get_value_kind")], ["OmegaConf.create","assignment"])
prop("C17", "Key paths address exactly one node, consistently",
 "For every node of a config and every documented spelling of its path (dots, brackets, mixed), select returns the same object as walking the config by hand; a path that does not exist gives the default (or None), never another node (a non-integer position in a list is a TypeError), and relative paths climb as documented. update at any path makes select at that path return the new value (merged into an existing container unless merge=False) and changes nothing outside it. The full key reported for a node, and every name in missing_keys, selects that node.",
 ["inputs","histories"], "all config trees with non-empty string keys free of path punctuation, all nodes, all spellings, all update values, existing and new paths",
 "Tests use fixed configs and paths; path spelling, list positions, interpolated intermediate nodes and missing values combine without bound.",
 ["omegaconf.py","_impl.py","base.py","basecontainer.py","_utils.py"], [("split_key","omegaconf/_utils.py"),("_select_impl","omegaconf/base.py"),("update, missing_keys","omegaconf/omegaconf.py"),("_get_full_key","omegaconf/basecontainer.py")], ["OmegaConf.select","OmegaConf.update","OmegaConf.missing_keys"])
prop("C18", "Conversion to plain containers honours every option",
 "to_container returns nested plain dicts and lists holding exactly the config's keys and values: interpolations are left as text with resolve=False and replaced by their values everywhere with resolve=True, enum keys and values become names only with enum_to_str=True, throw_on_missing raises exactly when a missing value is present, and structured nodes become dicts, stay configs, or become class instances according to structured_config_mode, at every depth. to_object builds instances of the right classes holding the fields' values, and converting never changes the config.",
 ["inputs"], "all configs (untyped and structured, dataclass and attrs) and all combinations of the options",
 "Tests check options mostly one at a time on small configs; option combinations at every depth and container kind are not crossed.",
 ["basecontainer.py","dictconfig.py","omegaconf.py"], [("_to_content","omegaconf/basecontainer.py"),("_to_object","omegaconf/dictconfig.py")], ["OmegaConf.to_container","OmegaConf.to_object"])
prop("C19", "In-place resolution equals resolved conversion",
 "After OmegaConf.resolve, a config contains no interpolation, its contents equal what resolved conversion gave before (with references to missing values becoming missing), and every value not written as an interpolation, every key order, flag and declared type is unchanged. Resolving again changes nothing, and resolved containers are independent copies of what they referred to, and nothing outside the config given to resolve is changed. (An untyped value takes over the type of the config it referred to.)",
 ["inputs"], "all acyclic configs with generated interpolations to scalars, strings, containers and missing values, typed and untyped",
 "Tests resolve about twenty fixed configs; ordering effects (a node resolved before or after its target), chains and containers in lists are not sampled.",
 ["_impl.py","omegaconf.py","base.py"], [("_resolve","omegaconf/_impl.py")], ["OmegaConf.resolve"])
prop("C20", "Custom resolvers receive the evaluated arguments and cache as declared",
 "A custom resolver is called with exactly the values its arguments denote (nested interpolations and resolvers evaluated first) and, when it asks for them, the current node, its parent and the root; its return value becomes the value read. Without use_cache it is called at every access; with use_cache it is called once per config for each distinct argument text, until the cache is cleared, set or copied as documented. A resolver registered by legacy_register_resolver (or register_resolver) receives its arguments as text with escaped blanks and commas unescaped, is always cached, and refuses arguments with nested interpolations. Registration, replacement, has_resolver, clear_resolver and clear_resolvers behave as operations on one name-to-function table, and failing ones change nothing.",
 ["inputs","histories"], "all argument lists over the grammar, all return values, and all histories of register/replace/clear/access/clear_cache/copy_cache over several configs and names",
 "Tests register one resolver and access it once or twice; histories over names, configs and caches are not modelled.",
 ["omegaconf.py","base.py","grammar_visitor.py"], [("register_new_resolver wrapper and cache","omegaconf/omegaconf.py"),("_evaluate_custom_resolver","omegaconf/base.py"),("visitInterpolationResolver","omegaconf/grammar_visitor.py")], ["register_new_resolver","resolver calls"])
prop("C21", "The built-in resolvers compute their documented functions",
 "For all inputs, oc.env returns the environment variable as a string or the (stringified) default, oc.select the selected value or the default, oc.dict.keys and oc.dict.values the keys and the current values of the referenced dict in order, oc.create an independent config equal to its argument, oc.decode the parsed value (None for None), and oc.deprecated the target's value with a warning naming both keys. Otherwise (unset variable without default, key not found, wrong input type) they raise an interpolation error, and none of them modifies the config.",
 ["inputs","configurations"], "all configs, environment contents, keys absolute and relative, defaults of every type",
 "Tests use fixed names and values; resolver inputs range over all paths, environments and default values.",
 ["resolvers/oc/__init__.py","resolvers/oc/dict.py","_impl.py"], [("resolver functions","omegaconf/resolvers/oc/__init__.py, dict.py"),("select_value","omegaconf/_impl.py")], ["interpolation reads"])
prop("C22", "Missing values are reported, never handed out",
 "Wherever '???' occurs, reading it raises MissingMandatoryValue (get with a default returns the default), `in`, is_missing and missing_keys report it as missing, an interpolation to it raises, iterating over it raises, and it survives copying, YAML and conversion as '???'. Assigning a value makes it present everywhere at once, and assigning '???' makes it missing again, for every field type.",
 ["inputs","histories"], "all configs with '???' at any position and of any declared type, and all assign/unassign histories",
 "Tests check missing on flat configs; the same state is reported by a dozen APIs that must agree at every position and type.",
 ["basecontainer.py","dictconfig.py","listconfig.py","omegaconf.py","_utils.py"], [("_resolve_with_default","omegaconf/basecontainer.py"),("_is_missing_value","omegaconf/_utils.py"),("missing_keys,is_missing","omegaconf/omegaconf.py")], ["reads","OmegaConf.is_missing","OmegaConf.missing_keys"])
prop("C23", "Dotlist and command-line overrides equal successive updates",
 "Building from, or merging, a list of key=value strings gives the same config as updating each path in turn with the YAML value of the text after the first '=' (None without '='), in order, whether given as a dotlist or through the command line. A schema being overridden validates and converts each value, and a non-string item or non-list input is rejected.",
 ["inputs"], "all lists of key=value strings over generated paths (dots, brackets, list indices) and YAML values, on empty, populated and structured targets",
 "Tests use a few fixed dotlists; path spellings, YAML value forms and repeated or overlapping keys are unbounded.",
 ["basecontainer.py","omegaconf.py"], [("merge_with_dotlist, merge_with_cli","omegaconf/basecontainer.py"),("from_dotlist, from_cli, update","omegaconf/omegaconf.py")], ["OmegaConf.from_dotlist","OmegaConf.from_cli"])
prop("C24", "A masked copy holds exactly the requested keys",
 "masked_copy of any dict config with any list of keys (or one key) returns a config holding exactly the requested keys that exist, in the original order, with the same raw values (missing values and interpolations kept verbatim), and independent of the source, which is unchanged. Keys that are not in the source are ignored.",
 ["inputs"], "all dict configs and key lists, present and absent, with repetitions",
 "Tests mask one fixed config.",
 ["omegaconf.py","dictconfig.py"], [("masked_copy","omegaconf/omegaconf.py"),("items_ex","omegaconf/dictconfig.py")], ["OmegaConf.masked_copy"])
prop("C25", "Failures raise the documented error naming the right key",
 "Every failing access or edit raises an OmegaConf exception that is also of the matching Python family (attribute errors for attributes, key errors for keys, index errors for list positions, type errors for wrong kinds, ValidationError for illegal values, ReadonlyConfigError, MissingMandatoryValue, interpolation errors), and never an internal error such as AssertionError. The exception's full_key is the path of the node that was accessed from the root, and its message names it. A failing single read or edit (not a merge or an update of several values) leaves the config unchanged. (Operators configs do not define, and popitem of an empty dict, keep Python's own errors.)",
 ["inputs"], "all configs, all nodes at all depths (dicts, lists, mixed, structured), all failing operations",
 "Tests enumerate about a hundred fixed failures at shallow depth; path computation through arbitrary nesting is not generated.",
 ["_utils.py","errors.py","basecontainer.py","dictconfig.py","listconfig.py"], [("format_and_raise","omegaconf/_utils.py"),("_get_full_key","omegaconf/basecontainer.py"),("exception hierarchy","omegaconf/errors.py")], ["raised exceptions"])
prop("C26", "Structured classes become faithful, independent configs",
 "Creating a config from a dataclass or attrs class or instance yields its fields in order with their declared types, holding the defaults (or instance values), with fields without default missing, ignored fields absent, and frozen classes read-only; subclass fields and inherited fields included. Class and default-instance give equal configs, configs made from the same class or instance share no state with each other or with it, and an equivalent dataclass and attrs class behave alike. to_object of it recreates an equal instance.",
 ["inputs","programs"], "all classes generated from the supported annotations, defaults, default factories, inheritance, frozen and ignore metadata, and all instances of them",
 "Tests use about a hundred hand-written classes; classes can be generated without bound and parity between dataclass and attrs is universal.",
 ["_utils.py","omegaconf.py","dictconfig.py"], [("get_dataclass_data/get_attr_data","omegaconf/_utils.py"),("_to_object","omegaconf/dictconfig.py")], ["OmegaConf.structured","OmegaConf.to_object"])
prop("C27", "A config is always a proper tree with no shared nodes",
 "After any history of operations, including assigning, inserting, appending or merging nodes taken from the same or another config, every node occurs once, its parent is the container that holds it, its key is the key it is held under, and all nodes of a config have the same root. Putting a node into a config copies it: later changes on either side never show on the other, and the original keeps its own parent, key, flags and contents.",
 ["histories"], "all histories mixing several configs with assignment, append, insert, slice assignment, extend, merge, update, pop, sort and delete of nodes at any depth",
 "Tests check parent pointers after single operations; aliasing and stale keys come from sequences across several configs (the pinned tree had several).",
 ["basecontainer.py","base.py","listconfig.py","dictconfig.py"], [("copy on set and re-parenting","omegaconf/basecontainer.py _set_item_impl; omegaconf/base.py _re_parent"),("_update_keys","omegaconf/listconfig.py")], ["relative interpolation","full_key","flags inheritance"])
prop("C28", "YAML text is loaded with the documented OmegaConf semantics",
 "Loading any YAML mapping or list gives the same data as a plain YAML 1.1 safe load, except for the documented differences: floats with exponents but no dot or sign are floats, dates stay strings, and path tags become Paths. A mapping with a duplicate key, at any depth, is rejected; create from text, load from a file and load from a stream agree; an empty document gives an empty config.",
 ["inputs"], "all YAML documents generated from an abstract document (block and flow style, anchors, quoting, scalars of every type)",
 "Tests load a few documents; scalar spellings and positions of duplicate keys are unbounded.",
 ["_utils.py","omegaconf.py"], [("get_yaml_loader","omegaconf/_utils.py"),("load/_create_impl","omegaconf/omegaconf.py")], ["OmegaConf.create(str)","OmegaConf.load"])
prop("C29", "The debugger view shows the config's own contents",
 "For every config, expanding it in the bundled debugger extension (user mode) lists exactly its keys (list positions as text) in order, single values as themselves and everything else as the node held there, following interpolations to configs; each listed child can be resolved by its name. None, missing, unresolvable and single values have no children. The text of a node is its value, '??? <MISSING>' for a missing one, and 'raw -> resolved' (or '-> ERR: ...') for an interpolation. The views offer themselves for nodes only. Inspecting never raises and never changes the config.",
 ["inputs"], "all configs: dicts, lists, structured, with interpolations (valid and broken), missing values and None containers",
 "Tests inspect fixed small configs.",
 ["pydevd_plugins/extensions/pydevd_plugin_omegaconf.py"], [("OmegaConfUserResolver","pydevd_plugins/extensions/pydevd_plugin_omegaconf.py")], ["get_dictionary/resolve of the extension"])
prop("C30", "How a class is written does not change its config",
 "The config of a dataclass or attrs class depends on the names, types, defaults, inheritance and metadata it declares, not on how its source spells them: typing or builtin generics (also bare), Optional, Union or `|`, quoted annotations or postponed evaluation, List or Tuple at the top of a field, plain defaults, field()/attr.ib() or factories, decorators of the attrs family, and methods, class variables, properties or other fields' options beside the fields. Two spellings of the same declarations give configs with the same contents and declared types that accept and reject the same operations and convert to the same objects.",
 ["inputs","programs"], "all spellings of all classes of the supported annotations, and all operations on their configs",
 "Tests use each spelling in one or two hand-written classes; combinations of nested annotations, quoting and decorators are unbounded.",
 ["_utils.py","omegaconf.py"], [("get_dataclass_data/get_attr_data, _resolve_forward, _resolve_optional, is_*_annotation","omegaconf/_utils.py")], ["OmegaConf.structured"])
prop("C31", "Value nodes hold, compare, hash and copy as their value",
 "Whatever history of assignments a value node of any type has (made by itself or in a structured config), it holds the last accepted value as its type converts it; a rejected assignment raises ValidationError (or GrammarParseError, UnsupportedValueType) and changes nothing; a read-only node refuses; with conversion off only values of exactly the type are accepted. Its text is its value's, it equals what its value equals (also other nodes, both ways round, NaN equal for float nodes), and equal nodes have equal hashes. A deep copy or pickle holds the same and is independent, with its key and flags. Whether it is None, missing or an interpolation follows from what it holds.",
 ["inputs","histories"], "all node types, optional or not, alone or in configs, with all histories of assignments, flags, copies and comparisons",
 "Tests cover fixed pairs of values per node type.",
 ["nodes.py","base.py"], [("ValueNode and subclasses","omegaconf/nodes.py"),("UnionNode","omegaconf/base.py")], ["value nodes","equality and hashing of nodes"])
prop("C32", "Query functions tell what the config holds",
 "For every config and every key, also by negative index: OmegaConf.is_missing is true exactly where '???' is held, is_interpolation exactly where text with '${' is held (by key or for the node), get_type gives the class of a structured config, dict or list of other containers and the type of a value; is_dict, is_list and is_config tell configs of each kind from everything else. For keys that are not there the answers are false or a readable key error. Queries change nothing and resolve nothing.",
 ["inputs","histories"], "all configs with all kinds of contents after all histories of edits, all places and all present and absent keys",
 "Tests query fixed small configs.",
 ["omegaconf.py","basecontainer.py"], [("is_missing, is_interpolation, is_list, is_dict, is_config, get_type","omegaconf/omegaconf.py")], ["OmegaConf.is_missing","OmegaConf.is_interpolation","OmegaConf.get_type"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
