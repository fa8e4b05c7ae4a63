WHY = "The tests fix a few dozen literals; "

prop("C01", "Hints admit the data they were generated from",
     "Generating hints for a value (plain and user-class instances, None, callables, modules, classes, arrays, lists, tuples, sets, iterators, dictionaries and mapping proxies nested in any way, under any parsing strategies that look at every element) never fails for a valid class name. The value is a member of the type declared under that class name: following the declared aliases, every element, key and field of the value is admitted where it occurs (int counts as float, bool as int).",
     ["inputs", "configurations"], "every nested value built from those kinds, every combination of list, tuple, dict, read-only, alias-height and merge strategies, element limit not reached",
     WHY + "type soundness is a statement over every nesting, key set and strategy combination, where sharing, merging and renaming of sub-trees interact.",
     ALLG, [("type sharing by structural hash", G + "sequence_data_type_tree.py"), ("merging of similar TypedDicts", G + "set_and_sequence_operations.py"), ("rendering of aliases", T + "data_type_tree.py")],
     observe=["LazyTypeHint(...).from_data(...).to_string()"])

prop("C02", "Generated modules are valid and self-contained",
     "The generated text parses and compiles as a Python module consisting of imports and declarations only. Every name used in it is a builtin, imported in it or declared in it before its use, no name is declared twice and no field twice. The requested class name is the last declaration.",
     ["inputs", "configurations"], "every value and strategy combination as in C01, keys being arbitrary text",
     WHY + "key text, nesting and naming collisions that break a module are unbounded.",
     ALLG + [U + "import_manager.py"], [("naming of nested declarations", G + "mapping_data_type_tree.py"), ("functional syntax for keys that are no identifiers", G + "dict_data_type_tree.py"), ("imports", U + "import_manager.py")],
     observe=["LazyTypeHint(...).from_data(...).to_string()"])

prop("C03", "Hints declare nothing the data does not show",
     "Every alternative of a union, every field, every NotRequired mark, every None and every declared alias in the generated module is witnessed by some part of the data it describes, and Any is used for elements only where a container is empty. No alternative is listed twice.",
     ["inputs", "configurations"], "every value and strategy combination as in C01",
     WHY + "a type that is merely too wide passes any membership test; spurious alternatives appear only for particular combinations of siblings.",
     ALLG, [("collapse of equal children", G + "set_and_sequence_operations.py"), ("union formatting", G + "generic_data_type_tree.py")],
     observe=["LazyTypeHint(...).from_data(...).to_string()"])

prop("C04", "TypedDict fields mirror the dictionaries exactly",
     "Each generated TypedDict declares exactly the keys of the dictionaries it describes, spelled as in the data and, for a single shape, in their order. A field is NotRequired exactly when some of those dictionaries lacks the key. Fields are ReadOnly exactly when read-only values were requested.",
     ["inputs", "configurations"], "string-keyed dictionaries with arbitrary key text and any presence pattern, alone, nested, and in lists, tuples and iterators at every similarity threshold",
     WHY + "requiredness depends on the history of merges over all presence patterns.",
     [G + "dict_data_type_tree.py", G + "set_and_sequence_operations.py"], [("key metadata and requiredness", G + "dict_data_type_tree.py"), ("merge and transfer of metadata", G + "set_and_sequence_operations.py")],
     observe=["fields of the TypedDicts in the generated text"])

prop("C05", "Dictionaries merge exactly at the similarity threshold",
     "Within one list, tuple or iterator, all string-keyed dictionaries share one TypedDict when the keys common to all of them are at least the configured percentage of all their keys and the values under each key have the same type. Otherwise each distinct shape gets its own TypedDict, and dictionaries of the same shape share one. Elements that are no dictionaries have no influence on this.",
     ["inputs", "configurations"], "every threshold 1..100 and every presence/type pattern of up to four dictionaries, plus 50-key dictionaries for the rounding of the percentage",
     WHY + "two thresholds and a few literals are tested; the boundary lies elsewhere for every pair of key sets.",
     [G + "dict_data_type_tree.py", G + "set_and_sequence_operations.py"], [("percentage of similarity", G + "dict_data_type_tree.py"), ("merge decision", G + "set_and_sequence_operations.py")],
     observe=["number of TypedDicts for the elements of the sequence"])

prop("C06", "Containers are spelled as the strategies say",
     "At every depth lists are hinted as List or Sequence, tuples with one type per position or with one type and an ellipsis, and dictionaries as TypedDict (when all keys are strings), Dict or Mapping, as the strategies ask; sets, frozensets, iterators and mapping proxies are hinted as Set, FrozenSet, Iterator and MappingProxyType. No container is hinted as another kind because one of the same content is elsewhere in the data.",
     ["inputs", "configurations"], "all strategy combinations over containers of every kind next to and inside every other kind",
     WHY + "they set one strategy at a time on one container.",
     ALLG + [G + "mapping_proxy_data_type_tree.py", G + "iterator_data_type_tree.py"], [("per-container rendering", G + "tuple_data_type_tree.py"), ("structural hash", G + "set_data_type_tree.py")],
     observe=["container names in the generated text"])

prop("C07", "The alias height changes what is named, not what is meant",
     "For any two values of the minimum alias height the declared type is the same once every alias is opened. An alias other than the requested one is declared only for a type whose height exceeds the minimum, and a container whose height exceeds it is never written out inside another declaration; TypedDicts and callables are always declared.",
     ["inputs", "configurations"], "minimum heights 0..4 against 9 over nested data of height up to 5",
     WHY + "two heights on one literal are tested; the naming decision interacts with sharing and merging at each level.",
     [T + "data_type_tree.py", G + "generic_data_type_tree.py", G + "dict_data_type_tree.py"], [("permission to be an alias", T + "data_type_tree.py")],
     observe=["aliases in the generated text"])

prop("C08", "The element limit equals cutting the data",
     "With an element limit n of at least 1 the generated hints are those of the data in which every list, tuple, set, iterator and mapping proxy, and every dictionary unless dictionaries are hinted as TypedDicts, is cut to its first n elements at every level. With no limit every element counts.",
     ["inputs", "configurations"], "limits 1..5 and none, containers up to 5 elements nested two levels",
     WHY + "timing and two literals are tested, not which element is the first ignored, per container kind and level.",
     [G + "set_and_sequence_operations.py", G + "dict_data_type_tree.py", G + "mapping_proxy_data_type_tree.py"], [("limit on elements", G + "set_and_sequence_operations.py"), ("cut of mappings", G + "mapping_proxy_data_type_tree.py")],
     observe=["LazyTypeHint(...).from_data(...).to_string()"])

prop("C09", "Same data, same text",
     "Hints for the same data and strategies are the same text when rendered again, when generated again after hints for other data, and in another process with another hash seed (data with sets of non-plain values aside, whose own order is input). Leaving out the imports leaves out the imports and nothing else.",
     ["inputs", "configurations", "schedules"], "iteration order of every internal set reversed or rotated; repeated and interleaved generation",
     WHY + "one process has one hash seed, and repeated rendering is not tested.",
     [T + "data_type_tree.py", G + "generic_data_type_tree.py", G + "dict_data_type_tree.py", U + "import_manager.py"], [("sorted unions and imports", G + "generic_data_type_tree.py"), ("ordered set of declarations", U + "ordered_set.py")],
     observe=["LazyTypeHint(...).from_data(...).to_string()"])

prop("C10", "Generating hints leaves the data alone",
     "Generating hints, whether it succeeds or not, changes neither the value given nor any object within it: afterwards every container holds the same objects in the same order, also where dictionaries carry documentation (iterators, which are used up by being read, aside).",
     ["inputs", "configurations"], "nested data without iterators, documented or not, every strategy combination",
     WHY + "a pop, update or sort on an aliased container shows only for the shapes that reach it.",
     [G + "dict_data_type_tree.py", G + "mapping_data_type_tree.py", G + "set_and_sequence_operations.py"], [("removal of documentation keys", G + "dict_data_type_tree.py"), ("cut of mappings", G + "mapping_proxy_data_type_tree.py")],
     observe=["the data after LazyTypeHint(...).from_data(...)"])

prop("C11", "Only strategies that mean something are accepted",
     "ParsingStrategies accepts exactly the documented texts for the list, tuple, dictionary and pandas strategies, an alias height of at least 0, a similarity from 1 to 100 and an element limit of None or at least 1, and refuses everything else with a ValueError. What it accepts it holds unchanged, with the documented defaults for the rest, and cannot be modified afterwards.",
     ["configurations"], "every text up to 32 characters for each option, every pair of integers around the limits",
     WHY + "accepted spellings and boundary values are unbounded.",
     ["lazy_type_hint/strategies.py"], [("validation of the strategies", "lazy_type_hint/strategies.py")],
     observe=["ParsingStrategies(...)"])

prop("C12", "Class names: exactly the identifiers",
     "A class name is accepted when, and only when, it is a Python identifier and no keyword; otherwise LazyTypeHint raises its own error. With an accepted name that the generated text does not itself need (names of typing constructs and builtins), the module can be imported and declares that name last.",
     ["inputs"], "every Latin-1 text up to 5 characters and lower-case texts up to 9, over seven shapes of data",
     WHY + "a handful of names is tested, identifiers and keywords are a language.",
     [U + "utils.py", GEN + "lazy_type_hint_abc.py", T + "data_type_tree.py"], [("check of class names", U + "utils.py")],
     observe=["LazyTypeHint().from_data(..., class_name=...)"])

prop("C13", "Imports are complete, minimal and unique",
     "The generated module imports only what exists and what it uses (TypeAlias aside), each name once and each module in one statement. Imports precede all declarations and a __future__ import comes first.",
     ["inputs", "configurations"], "every set of constructs the hints may need, import lists shorter and longer than a line",
     WHY + "which imports are needed depends on the union of everything in the data.",
     [U + "import_manager.py", T + "data_type_tree.py"], [("collection of imports", T + "data_type_tree.py"), ("formatting of imports", U + "import_manager.py")],
     observe=["import statements of the generated text"])

prop("C14", "Docstrings say what the documentation says",
     "Documentation of a dictionary or a key reads the same in the generated module as in the data: the words, their order and paragraphs survive quotes, backslashes, full stops, line ends and wrapping, except for a final full stop and white space. No line that could be wrapped exceeds the line limit, and the module stays valid.",
     ["inputs"], "every Latin-1 text up to 3 characters, longer ones over quotes, backslashes, full stops and white space, and texts around the line limit",
     WHY + "quoting and wrapping fail for particular characters at particular columns.",
     [U + "docstring_formatter.py", G + "dict_data_type_tree.py"], [("formatting of docstrings", U + "docstring_formatter.py")],
     observe=["docstrings of the generated text"])

prop("C15", "Naming a documentation key adds docstrings only",
     "With the key of the documentation named in the strategies, the generated types are those generated without it; a name no dictionary has changes nothing. Every docstring is the text some dictionary of that TypedDict holds under that key, and a dictionary's text is not lost unless it shares its TypedDict with others.",
     ["inputs", "configurations"], "documentation absent, text or another value, at up to three levels within every kind of container, under all the strategies",
     WHY + "documentation travels through sharing, merging and renaming of types.",
     [G + "dict_data_type_tree.py", G + "set_and_sequence_operations.py"], [("documentation of dictionaries", G + "dict_data_type_tree.py")],
     observe=["generated texts with and without key_used_as_doc"])

prop("C16", "Comments of YAML files document their keys",
     "For block-style YAML indented with spaces, whose keys start with a letter and whose values stand on one line with paired quotes, each key is documented with the comment beside it, the comments directly above it or directly below it at its column, as requested and in that order, and with nothing else. A hash within a value is no comment.",
     ["inputs", "configurations"], "files of up to 9 lines in which each comment may be missing, anywhere, indented in any way and of any printable text, for every position of comments",
     WHY + "three files are tested; the association of comments depends on every neighbouring line.",
     [M + "yaml_file_modifier.py", GEN + "lazy_type_hint_abc.py"], [("search of comments", M + "yaml_file_modifier.py")],
     observe=["docstrings of LazyTypeHint().from_yaml_file(...).to_string()"])

prop("C17", "Reading comments changes documentation only",
     "Whatever comments a YAML file has and wherever they are looked for, the hints of from_yaml_file are, docstrings aside, those of the loaded data, without docstrings when no comments are asked for. A valid .yaml or .yml file never fails because of its comments, and neither the file nor its directory is changed. Comments are not read from other files, nor from above and below at once: both are errors.",
     ["inputs", "configurations"], "block and flow style files of up to 10 lines with comments anywhere, under all the strategies",
     WHY + "the tool rewrites the file as text and loads it again: any unforeseen line changes the data.",
     [M + "yaml_file_modifier.py", GEN + "lazy_type_hint_abc.py", G + "dict_data_type_tree.py"], [("insertion of comments as keys", M + "yaml_file_modifier.py"), ("fall-back to the original data", GEN + "lazy_type_hint_abc.py")],
     observe=["LazyTypeHint().from_yaml_file(...).to_string()", "the file"])

prop("C18", "Live interface lists exactly the classes that exist",
     "After any history of LazyTypeHintLive calls over any number of instances, the interface file is valid, imports every class generated since the last reset once, has exactly one overload per class in from_data and from_yaml_file returning that class, with the generic signature last, and lists the classes in classes_created; each class file holds the hints of the last data given under that name. Each call returns the very data it was given (for YAML files the data of the file) and touches no other class; reset removes everything.",
     ["histories", "inputs"], "histories of up to 4 calls (6 thorough) over up to 3 instances with ASCII class names other than those the interface itself uses",
     WHY + "bookkeeping is text editing whose state lies in files and instances; tests make one or two calls.",
     [GEN + "lazy_type_hint_live.py", M + "py_file_modifier.py"], [("edits of the interface file", GEN + "lazy_type_hint_live.py"), ("line based editing", M + "py_file_modifier.py")],
     observe=["generators/lazy_type_hint_live.pyi", "generators/build/*.py", "returned data"])

prop("C19", "Validation fails exactly when the hints differ",
     "With if_type_hint_exists='validate', from_data and from_yaml_file raise LazyTypeHintLiveError exactly when hints exist under that class name that differ, docstrings aside, from those of the data given, and then change no file. With 'overwrite', with no existing hints or after a reset they never do, and write the hints of the data.",
     ["histories", "inputs", "configurations"], "histories of up to 4 calls over up to 3 instances in either mode, with other data, strategies, key texts and documentation",
     WHY + "agreement of two generated texts is a relation over pairs of inputs; two pairs are tested.",
     [GEN + "lazy_type_hint_live.py"], [("comparison with existing hints", GEN + "lazy_type_hint_live.py")],
     observe=["LazyTypeHintLive(...).from_data(...)", "generators/build/*.py"])

prop("C20", "DataFrames become one overload per column",
     "With the full or autocomplete strategy a DataFrame whose (first-level) columns are texts, integers or booleans becomes a class with one overload per column, in order, whose literal is exactly the column and whose return type admits, and admits no more than, what indexing gives. The full strategy accepts only those keys, autocomplete any text too. Otherwise the hint is pd.DataFrame; a Series is pd.Series of its element types. Frames share a class only if names and types of their columns agree.",
     ["inputs", "configurations"], "frames of up to 3 columns of every text of up to 3 characters, integers or booleans, multi-indexed ones, repeated columns, in lists and dictionaries",
     WHY + "column names and the types of cells are unbounded and frames share declarations.",
     [G + "pandas_data_frame_data_type_tree.py", G + "pandas_series_data_type_tree.py"], [("classes of DataFrames", G + "pandas_data_frame_data_type_tree.py")],
     observe=["LazyTypeHint().from_data(frame, ...).to_string()"])

prop("C21", "Callables keep their signatures",
     "The hint of a callable is a Protocol whose __call__ has its parameters' names, kinds, defaults and annotations (what only its module knows: defaults as Ellipsis, annotations quoted), async for coroutine functions, with the return annotation or else None if nothing is returned and Any otherwise. Lambdas are Callable with as many Any, callables without signature Callable. Callables of different signatures do not share a type; the module stays valid, its imports minimal.",
     ["inputs"], "signatures of up to 4 parameters of any kind, default and annotation, bodies with and without returns, lambdas, methods, classmethods, builtins, one or two callables",
     WHY + "signatures are a language; tests sample a handful.",
     [S + "function_data_type_tree.py"], [("rendering of signatures", S + "function_data_type_tree.py")],
     observe=["LazyTypeHint().from_data(callable, ...).to_string()"])

prop("C22", "to_file writes the hints and nothing else",
     "to_file leaves at the path given (text or Path, relative or absolute) exactly the text of to_string in UTF-8, whatever was there before, whatever the locale and whatever was called before on the same tree, and changes no other file. Missing parent directories are created only when asked; otherwise ValueError is raised and nothing changes.",
     ["inputs", "configurations", "histories"], "every path of up to 3 components, every number of missing directories, keys of every Latin-1 character, UTF-8 and ASCII locales",
     WHY + "the text, the locale and the state of the disk are the user's.",
     [GEN + "lazy_type_hint.py"], [("writing of files", GEN + "lazy_type_hint.py"), ("rendering", T + "data_type_tree.py")],
     observe=["the directory tree before and after Tree.to_file"])
