"""Writes /verif/properties.jsonl (kept as code so that the texts stay reviewable)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

V = "variantlib/"
prop("C01", "Variant hash and default label are a canonical identity of the property set",
     "The hash of a variant is the first 8 hex digits of the SHA-256 of its properties written as 'namespace :: feature :: value' lines in sorted order, so it depends on the set of properties alone: not on the order they were given in, the route they came by (objects, text, packed metadata, command line), the process or its hash seed. "
     "Descriptions with equal property sets are equal and list their properties in the same order; repeating a property in one description is rejected. "
     "The default label of a variant is its hash, and 'null' for the variant without properties.",
     ["inputs", "configurations"], "every ordering and construction route of every property set over small alphabets chosen to collide when concatenated, swept up to 12 properties, under several hash seeds",
     "Tests compute a handful of fixed digests with one construction route and one ordering each.",
     [V+"models/variant.py", V+"api.py", V+"commands/get_variant_hash.py"],
     [("VariantDescription.hexdigest", V+"models/variant.py"), ("VariantDescription sorting and from_dict/to_dict", V+"models/variant.py"), ("get_variant_label", V+"api.py")])
prop("C02", "Names are accepted exactly if they match the grammar, and text forms round-trip",
     "Namespaces and feature names are accepted exactly when they are non-empty strings of [a-z0-9_], values exactly when they are non-empty strings of [a-z0-9_.], and variant labels exactly when they are 1 to 16 characters of [0-9a-z._]; anything else, including a trailing newline, other Unicode letters and digits or a value that is not a string, is rejected with a validation error. "
     "The text form 'namespace :: feature[ :: value]', with any whitespace around the separators and the ends, parses to exactly the object whose text form it is, and no other text is accepted. "
     "The same holds through every entry point: object construction, text parsing, packed dictionaries and provider configurations.",
     ["inputs"], "every single code point of the Basic Multilingual Plane and selected astral ones in every position class, all strings up to a length bound over a representative alphabet, all whitespace/separator layouts",
     "Tests try a few good and bad strings; anchoring, Unicode classes and newline handling need the whole character set in every position.",
     [V+"constants.py", V+"models/variant.py", V+"models/provider.py", V+"validators/base.py"],
     [("validation regexes", V+"constants.py"), ("field validators, from_str/to_str", V+"models/variant.py"), ("VariantFeatureConfig, ProviderConfig", V+"models/provider.py"), ("validate_matches_re / validate_type", V+"validators/base.py")])
prop("C03", "A variant is kept exactly when it is compatible and not forbidden",
     "Filtering keeps a variant exactly when, for every feature it uses, at least one of its values for that feature is supported and not itself a forbidden property, and it uses no forbidden namespace or feature; the variant without properties is always kept. "
     "Each distinct variant appears once, at the position of its first occurrence and in input order, even if shortened hashes of distinct variants coincide. "
     "The individual filters apply the same rules, and no argument is modified.",
     ["inputs"], "all lists of variants over a two-namespace property universe against all supported sets and forbidden namespaces, features and properties, within bounds, plus constructed hash collisions and one-dimensional size sweeps",
     "Tests use one fixed set of variants and a few forbidden lists; the OR-within-feature and AND-across-features rule interacts with every combination of forbidden items and duplicates.",
     [V+"resolver/filtering.py", V+"resolver/lib.py"],
     [("filter_variants", V+"resolver/lib.py"), ("filter_variants_by_*, remove_duplicates", V+"resolver/filtering.py")])
prop("C04", "Supported variants are ordered by namespace, then feature, then value priority",
     "Compatible variants are ranked lexicographically: features are ordered by namespace priority, then by the feature priority list (listed features first, the rest in the order the provider declares them), and a variant's rank on each feature is the position of its best supported value under the value priority list (listed values first, the rest in provider order), a variant not using the feature ranking below every one that does. "
     "Variants that tie keep their input order and the variant without properties always sorts last. "
     "A supported namespace without a priority is an error.",
     ["inputs", "configurations"], "all sets of variants over small feature/value universes under all priority lists (partial, full and with unknown entries) and all provider orders, with size sweeps up to 12 features or values",
     "Tests check a few hand-ordered lists; the order must be right for every pair of variants under every partial priority list.",
     [V+"resolver/sorting.py", V+"resolver/lib.py"],
     [("sort_variant_properties", V+"resolver/sorting.py"), ("sort_variants_descriptions", V+"resolver/sorting.py"), ("sort_and_filter_supported_variants", V+"resolver/lib.py")])
prop("C05", "End-to-end resolution returns exactly the supported labels, best first",
     "Resolving a package's variant index returns the labels of exactly the supported variants, best first, each once, followed by the null variant's label whether or not the index lists it. "
     "Priorities are taken from the user's configuration first, then the package's defaults, then the provider's own order. "
     "Checking whether one variant is supported agrees with whether resolution would list it (metadata that does not describe exactly one is refused), and neither changes the objects passed in or anything a later call returns.",
     ["inputs", "configurations", "histories"], "all combinations of user configuration, package priorities, supported properties and variants with arbitrary labels over a small universe, as dictionaries and objects, repeated on the same objects",
     "Tests resolve one or two indexes; precedence between three priority sources and label mapping need the combinations.",
     [V+"api.py", V+"resolver/lib.py", V+"utils.py", V+"configuration.py"],
     [("get_variants_by_priority, check_variant_supported", V+"api.py"), ("aggregate_*_priorities", V+"utils.py"), ("sort_and_filter_supported_variants", V+"resolver/lib.py")])
prop("C06", "Plugin code runs exactly for the providers the policy enables",
     "Plugin code of a provider is loaded and queried exactly when the provider is not served from recorded static properties, is within the requested namespaces, is either not optional or opted into (all, none or by name), and its environment marker, if any, holds; ahead-of-time providers are queried only in build-time operations and only if they have requirements. "
     "The plugin reference used is the declared one, else the module named by the first requirement. "
     "Resolution uses static properties of exactly the remaining ahead-of-time providers and never runs a plugin for them; two enabled plugins claiming one namespace are refused.",
     ["configurations"], "all combinations of install-time, requirements, optional, opt-in form, marker, namespace filter, static properties and operation for one and two providers",
     "Tests pick single settings; running third-party code that should not run shows up only for particular combinations.",
     [V+"plugins/loader.py", V+"models/variant_info.py", V+"api.py"],
     [("PluginLoader._plugin_enabled and friends", V+"plugins/loader.py"), ("ProviderInfo.object_reference", V+"models/variant_info.py")])
prop("C07", "A misbehaving plugin is reported and never yields partial or cached bad results",
     "Whatever a provider plugin does wrong (fails to import, lacks required members, raises, exits early, is killed, writes to the output streams, returns wrong types, invalid or duplicate names or values, or no configurations where some are required), the query fails with a plugin error or validation error instead of returning anything. "
     "The failure leaves no trace: querying again after the plugin is repaired gives the correct answer, and other plugins remain usable. "
     "A well-behaved plugin written in any of the supported styles (class, instance, module, class or static methods, optional members left out) is never rejected.",
     ["fault_sequences", "inputs"], "every fault kind at every plugin call in one- and two-plugin loads, for each query method, followed by repair and retry; every supported plugin style",
     "Tests cover a few faults of the first plugin in the first call.",
     [V+"plugins/loader.py", V+"plugins/_subprocess.py", V+"models/provider.py"],
     [("subprocess invocation and result checking", V+"plugins/loader.py"), ("load_plugins, process_configs", V+"plugins/_subprocess.py")])
prop("C08", "Caching plugin results is invisible in every history of queries",
     "In any history of queries within one process, each answer is what a fresh process would give for the same interpreter, set and order of plugins, method and options. "
     "In particular results for one Python environment, plugin set, method or strictness are never returned for another. "
     "Changing objects returned by an earlier query never changes later answers.",
     ["histories"], "all histories up to a depth bound of queries over two interpreters, plugin sets in both orders, both methods, strict mode, mutation of returned objects and failing queries",
     "Tests clear the cache before each test and never combine queries of different environments.",
     [V+"plugins/loader.py"],
     [("result cache", V+"plugins/loader.py")],
     [("VARIANT_PROVIDER_CACHE_TABLE", "results of earlier plugin invocations", V+"plugins/loader.py")])
prop("C09", "Plugin loaders answer only inside their context, and contexts are well-bracketed",
     "A plugin loader answers queries only between successfully entering and leaving its context; outside of it every query fails with the no-plugin-found error, and entering twice or leaving without entering is an error. "
     "A failed entry leaves the loader as if it had not been entered, so that a later entry can succeed, and repeated use of one loader gives the same answers each time. "
     "Loaders are independent of each other.",
     ["histories", "fault_sequences"], "all operation sequences up to a depth bound over one and two loaders of every kind, with entries that fail",
     "Tests exercise single enter/query/exit runs and the two misuse errors in isolation.",
     [V+"plugins/loader.py"],
     [("context manager protocol and query guards", V+"plugins/loader.py")],
     [("loaded namespace map", "None outside of the context", V+"plugins/loader.py")])
prop("C10", "Validation of a variant gives the exact verdict for every property",
     "Validating a variant marks each of its properties true exactly if the namespace's provider lists that value for that feature among all its configurations, false if the provider does not, and unknown if no queried provider serves the namespace. "
     "Every feature holding several values although its provider does not allow that is reported as a violation, and no other. "
     "The overall verdict is valid exactly if nothing is false, no violation exists and, when unknown providers are not tolerated, nothing is unknown; make-variant refuses to build what is not valid.",
     ["inputs"], "all variants over known, unknown and static namespaces, features and values with single- and multi-value features, and all provider kinds, within bounds",
     "Tests validate two or three variants.",
     [V+"api.py", V+"models/variant.py", V+"commands/make_variant.py"],
     [("validate_variant", V+"api.py"), ("VariantValidationResult", V+"models/variant.py")])
prop("C11", "ABI dependency properties reflect the installed packages and the override",
     "Resolution supports, for every installed package, exactly its major, major.minor and major.minor.micro version under the package's normalised name in the 'abi_dependency' namespace, with the lowest namespace priority. "
     "VARIANT_ABI_DEPENDENCY entries 'package==version' replace or add packages, the last entry for a package winning; entries or installed packages with an invalid name or version are ignored. "
     "Of packages installed twice, the one first on the search path counts, and the lists passed in are not modified by resolution.",
     ["inputs", "configurations"], "all combinations of installed distributions (spellings, versions, duplicates, broken metadata) and override strings built from well-formed and malformed entries, within bounds",
     "Tests use a few mocked packages and one override string.",
     [V+"resolver/lib.py"],
     [("inject_abi_dependency", V+"resolver/lib.py")])
prop("C12", "Variant metadata survives writing, reading and conversion unchanged",
     "Whatever metadata can be read or built is written as a file that reads back equal, writing is stable (reading and writing again gives identical text), and list orders, which carry priority, are preserved. "
     "Converting between the metadata classes (project file, index, wheel metadata, plain) keeps every priority, provider setting and static property. "
     "A conversion result is independent: changing it in any way, or adding a variant to it, never alters the source, and vice versa.",
     ["inputs", "histories"], "all metadata documents over a small grammar covering presence and absence of every optional field and every list order, all conversion paths, and mutation of every reachable container of source and copy",
     "Tests round-trip one document and check a few conversions for independence.",
     [V+"variants_json.py", V+"variant_dist_info.py", V+"pyproject_toml.py", V+"models/variant_info.py", V+"api.py"],
     [("VariantsJson.to_str/_process", V+"variants_json.py"), ("VariantInfo.copy_as_kwargs", V+"models/variant_info.py"), ("VariantDistInfo", V+"variant_dist_info.py")])
prop("C13", "Malformed variant metadata is rejected and well-formed metadata accepted",
     "Variant tables of project files, index files and wheel metadata are accepted exactly when they follow the format: every key below the top level known, every value of the right type and grammar, namespace priorities covering exactly the providers, requirements present for install-time providers, static properties present for exactly the ahead-of-time providers that need them (with feature priorities when there are several features), and labels valid with 'null' meaning exactly the variant without properties. "
     "Rejection is always a validation error, and wheel metadata additionally has exactly one variant, under the expected label.",
     ["inputs"], "every single mutation (delete, retype, rename, corrupt, duplicate, extend) of every node of a family of valid documents, and pairs of mutations on smaller ones, for all three formats, against an independent reference validator",
     "Tests list a few dozen individual malformed snippets.",
     [V+"models/variant_info.py", V+"variants_json.py", V+"variant_dist_info.py", V+"pyproject_toml.py", V+"validators/keytracking.py", V+"validators/base.py"],
     [("VariantInfo._process_common", V+"models/variant_info.py"), ("KeyTrackingValidator", V+"validators/keytracking.py"), ("VariantsJson._process", V+"variants_json.py")])
prop("C14", "Merging indexes is all-or-nothing and independent of order",
     "Merging a wheel's metadata into an index succeeds exactly when priorities, providers and static properties are the same and no label would come to denote two different variants; it then adds exactly that wheel's variants and leaves everything else as it was. "
     "A refused merge leaves the index exactly as it was. "
     "Consistent wheels merged in any order, grouping or multiplicity give the same index, and the merged-in metadata is never modified, neither by the merge nor by later changes to the index.",
     ["histories", "inputs"], "all sequences and orders, within bounds, of merging metadata that agree or differ in any one field",
     "Tests merge two or three wheels in one order and check the error of some fields.",
     [V+"variants_json.py"],
     [("VariantsJson.merge", V+"variants_json.py")],
     [("variants, providers, priorities of the index", "accumulated state", V+"variants_json.py")])
prop("C15", "Index files are a function of the wheels, however they are produced",
     "Generating the index of a directory writes, for each project version, one file holding exactly the variants of its valid variant wheels, whatever order the directory is listed in; other wheels and files are ignored and versions never mix. "
     "Adding the same wheels one at a time, in any order, gives the same index, adding a wheel twice changes nothing, and regenerating replaces stale contents. "
     "An incremental addition that is refused, or would overwrite without permission, changes no file.",
     ["histories", "inputs"], "all subsets and listing/adding orders of a pool of variant, non-variant, broken and conflicting wheels of several projects, within bounds",
     "Tests index one prepared directory and add wheels in one order.",
     [V+"commands/generate_index_json.py", V+"commands/add_wheel_to_index_json.py", V+"variants_json.py"],
     [("generate_index_json", V+"commands/generate_index_json.py"), ("add_wheel_to_index_json", V+"commands/add_wheel_to_index_json.py")])
prop("C16", "make-variant produces an intact wheel with correct records",
     "The variant wheel made from any wheel holds exactly the original members in order, with the same contents, timestamps, attributes and compression, plus one metadata file describing exactly the requested variant; the file list records that file once with its true digest and size and every other entry unchanged. "
     "The output name is the original wheel name followed by the variant's label, replacing any label it had, and the input file is untouched unless it is itself the output. "
     "Metadata already present in the input is replaced, and invalid labels or names produce no output.",
     ["inputs"], "all wheels over a grammar of member lists, member attributes, RECORD layouts (line ends, quoting, blank lines, stale entries), file names with and without build tag and label, and variants",
     "Tests convert one prepared wheel.",
     [V+"commands/make_variant.py", V+"api.py", V+"constants.py"],
     [("_make_variant", V+"commands/make_variant.py"), ("make_variant_dist_info", V+"api.py")])
prop("C17", "Making and unmaking variants are inverse in every sequence",
     "Unmaking a variant wheel restores the wheel it was made from: same name, members, attributes and contents, with the file list as before up to a final line end. "
     "Any sequence of making and unmaking ends in the same wheel as its last step applied to the original, so re-making with other properties leaves no trace of earlier ones. "
     "Unmaking a wheel that is not a variant writes nothing.",
     ["histories"], "all sequences up to a depth bound of make (several variants and labels) and unmake over a family of wheels",
     "Tests undo one prepared variant wheel.",
     [V+"commands/make_variant.py", V+"commands/unmake_variant.py"],
     [("_make_variant", V+"commands/make_variant.py"), ("_unmake_variant", V+"commands/unmake_variant.py")])
prop("C18", "A failing or killed command never leaves a damaged file behind",
     "If a command that writes files (making or unmaking a variant, generating or extending an index, updating the project file) fails or is killed at any point, each of its output paths afterwards holds either its complete previous contents, or nothing if it did not exist, or the complete new contents. "
     "Inputs are never changed by a failure, even where the output would replace the input. "
     "Running the command again after the cause is gone gives the normal result.",
     ["crash_points", "fault_sequences"], "every file-modifying system call of every command, killed there or failing with out-of-space or I/O errors, with and without earlier output present; every invalid-input failure",
     "Tests never interrupt a command or make a write fail.",
     [V+"commands/make_variant.py", V+"commands/unmake_variant.py", V+"commands/generate_index_json.py", V+"commands/add_wheel_to_index_json.py", V+"commands/update_pyproject_toml.py", V+"commands/utils.py"],
     [("output writing of each command", V+"commands/")])
prop("C19", "Ahead-of-time providers are recorded completely at build time",
     "The metadata written for a wheel always reads back, describes exactly the requested variant under the right label, and keeps the project's priorities and providers; for every ahead-of-time provider with requirements it records exactly the features and values the plugin reports as supported, in order, with feature priorities completed when there are several features. "
     "A property the plugin does not support, a plugin not declared fit for ahead-of-time use, or a multi-value feature is refused with an error. "
     "Resolving with that metadata gives what the plugin would give, without running it, and make-variant queries plugins in the isolated environment when isolation is on.",
     ["inputs", "configurations"], "all small plugin outputs, priority lists, provider settings and variants (including the null variant and variants not using the provider), with and without isolation",
     "Tests record one plugin with one fixed output.",
     [V+"api.py", V+"commands/make_variant.py", V+"plugins/loader.py", V+"variant_dist_info.py"],
     [("make_variant_dist_info", V+"api.py"), ("isolated environment handling", V+"commands/make_variant.py")])
prop("C20", "Labels and wheel names are split and validated exactly",
     "A wheel file name is parsed into name, version, optional build tag, tags and optional variant label so that the parts joined again give the name, the label is recognised exactly when the part after the platform tag is a valid label, and names that are not wheel names are refused. "
     "A custom label is accepted exactly when it is 1 to 16 characters of [0-9a-z._], with 'null' required for the variant without properties and refused for all others. "
     "Every command agrees on whether a file is a variant wheel and with which label, and refuses wheels whose metadata names another label.",
     ["inputs"], "all file names assembled from small alternatives for each part with labels of every length up to 18 and every character, and all label strings up to a bound",
     "Tests parse a short list of names and labels.",
     [V+"constants.py", V+"api.py", V+"commands/analyze_wheel.py", V+"commands/make_variant.py", V+"variant_dist_info.py"],
     [("VALIDATION_WHEEL_NAME_REGEX, VALIDATION_VARIANT_LABEL_REGEX", V+"constants.py"), ("get_variant_label", V+"api.py")])
prop("C21", "The configuration in effect is the first one found, read exactly",
     "The configuration in effect is read from the first existing file in the order working directory, virtual environment, user, system, and is empty if there is none; files further down are not consulted at all. "
     "Every valid file yields exactly the priorities it lists, in order, and an invalid one is an error, never a silently different configuration. "
     "What 'config show' prints for a configuration reads back as the same configuration, and 'config list-paths' names the four paths.",
     ["configurations", "inputs"], "all subsets of present files crossed with valid, invalid, empty and unreadable contents, and all small configuration documents and mutations of them",
     "Tests place one or two fixed files.",
     [V+"configuration.py", V+"models/configuration.py", V+"commands/config/show.py", V+"commands/config/list_paths.py"],
     [("get_config_file, get_config_from_file, get_config", V+"configuration.py"), ("VariantConfiguration model", V+"models/configuration.py"), ("show", V+"commands/config/show.py")])
prop("C22", "Updating the project file keeps it valid and touches nothing else",
     "Any sequence of adding and deleting providers in a valid project file leaves a file that reads as valid variant metadata, in which the namespaces declared are those from before without the deleted and with the added ones (deletions go first), with the installed plugin's reference and a requirement on its package, existing entries keeping their requirements, settings and priority position. "
     "Every other table of the file, from its header to the next one, keeps its text with comments and formatting, those of unrelated providers included. "
     "Repeating a step changes nothing more, and a refused step (unknown plugin, nothing to do, missing or broken file) leaves the file unchanged.",
     ["histories", "inputs"], "all sequences up to a depth bound of add/delete steps, single and combined, over installed and missing plugins, from a family of initial files",
     "Tests run a few single updates on fixed files.",
     [V+"commands/update_pyproject_toml.py", V+"plugins/loader.py"],
     [("update_pyproject_toml", V+"commands/update_pyproject_toml.py"), ("EntryPointPluginLoader", V+"plugins/loader.py")])
prop("C23", "Concurrent resolution and validation give the sequential answers",
     "When several threads of one process resolve, validate, load plugins or write metadata at the same time, each call returns what it would return alone, under every interleaving. "
     "No call observes, or leaves behind, partially computed shared state such as cached plugin results or hashes. "
     "The same holds when a call is made while another one is suspended half-way in the same thread.",
     ["schedules"], "all interleavings of two threads at line granularity up to a preemption bound, over pairs of operations chosen to share plugin results, configuration, descriptions or metadata objects, with cold and warm caches",
     "Tests are single-threaded.",
     [V+"plugins/loader.py", V+"models/variant.py", V+"configuration.py", V+"api.py", V+"resolver/lib.py"],
     [("plugin result cache", V+"plugins/loader.py"), ("cached hexdigest", V+"models/variant.py"), ("class-level configuration cache", V+"configuration.py")])
prop("C24", "Inspection commands report exactly what is there",
     "For any variant, the marker environment holds exactly its namespaces, features and properties, and the label if given. "
     "analyze-wheel lists exactly the properties of the wheel's variant, get-variant-hash prints the hash of the given properties in any order, the plugin list names exactly the installed providers, the plugin configuration dump holds exactly the features and values that the plugins report and the filters select, in order, and analyze-platform shows the supported ones. "
     "None of them modifies any file.",
     ["inputs", "configurations"], "all small variants, plugin outputs and filter combinations through the command line entry point, compared with the source data",
     "Tests check one output per command.",
     [V+"api.py", V+"commands/analyze_wheel.py", V+"commands/get_variant_hash.py", V+"commands/plugins/get_configs.py", V+"commands/plugins/list_plugins.py", V+"commands/analyze_platform.py"],
     [("get_variant_environment_dict", V+"api.py"), ("command implementations", V+"commands/")])

prop("C25", "What is built and published is exactly what is offered to each installer",
     "Wheels built from a project for a set of variants and then indexed (all at once, in part, or one at a time in any order) give an index from which resolution on any machine offers exactly the labels of those wheels that the machine supports, best first: properties of install-time providers according to the plugins of that machine, those of ahead-of-time providers according to the plugins at build time, those of optional or disabled providers only when enabled. "
     "Each wheel by itself says the same about being supported as the index does. After any sequence of making, re-making, unmaking, removing and indexing wheels, the index offers what its last update put there and nothing from earlier steps.",
     ["histories", "configurations"], "all sequences of the commands up to a depth over a small project, and releases of all combinations of provider kinds and priorities, resolved on a set of platforms with a set of user configurations",
     "Tests exercise each command and the resolution on separately prepared files, never a chain of them.",
     [V+"api.py", V+"variants_json.py", V+"variant_dist_info.py", V+"pyproject_toml.py", V+"commands/make_variant.py", V+"commands/generate_index_json.py", V+"commands/add_wheel_to_index_json.py", V+"plugins/loader.py", V+"resolver/lib.py"],
     [("make_variant_dist_info", V+"api.py"), ("get_variants_by_priority, check_variant_supported", V+"api.py"), ("generate_index_json", V+"commands/generate_index_json.py")],
     state=[("wheels and index of a directory", "published files", V+"commands/")])
prop("C26", "Results are a function of the inputs alone",
     "For the same inputs (arguments, files, configuration, plugins) every operation and command gives the same results, prints the same (but for paths) and writes the same contents, whatever else differs: the hash seed of the process, locale and preferred text encoding (metadata with characters beyond ASCII included), time zone, umask, working directory and unrelated files in it, temporary directory, interpreter optimisation or development modes, standard streams, unrelated environment variables, logging level, garbage collection, the calling thread, the spelling of paths, and how often it was called before. "
     "The time recorded for the added metadata file, and the wording of errors, are not covered.",
     ["configurations", "inputs"], "a battery of operations covering every public function and command, under every hash seed of a range and every single and pairwise variation of the process environment from a list",
     "Tests run in one process environment, with one hash seed, on inputs too small for an unordered set to show.",
     [V+"api.py", V+"models/variant.py", V+"plugins/loader.py", V+"plugins/_subprocess.py", V+"commands/add_wheel_to_index_json.py", V+"commands/generate_index_json.py", V+"commands/update_pyproject_toml.py", V+"resolver/sorting.py"],
     [("plugin subprocess", V+"plugins/loader.py"), ("reading and writing of files", V+"commands/"), ("sorting", V+"resolver/sorting.py")])

prop("C27", "Every command line is carried out completely, or refused without effect",
     "Each command either succeeds (exit status 0) with exactly its whole documented effect and no other change to any file, or ends with an error and leaves every file as it was, no temporary or partial output included. "
     "It is refused when an option is unknown, missing, lacks its value or contradicts another (--null-variant with properties or a label, config of a place that has none, existing index without overwriting); when an input is missing, not a file, unreadable, malformed or invalid, not named as a wheel of the needed kind, or has no list of files to add the metadata to; "
     "when the output directory is missing or a directory is in the place of the output; when a label or property is malformed, duplicate or (unless validation is skipped) invalid, not provided or of a plugin that fails. Otherwise it is accepted. The order and spelling (short, long, joined) of options make no difference. "
     "The kind and text of errors are not covered.",
     ["inputs", "configurations"], "command lines: every command with every combination of two (or three, five) deviations from a valid call; every order and spelling of its options",
     "Tests call the commands with valid options, and check a few refusals one at a time; whether a refusal leaves something behind, or a combination slips through, takes the product of the options.",
     [V+"commands/make_variant.py", V+"commands/unmake_variant.py", V+"commands/generate_index_json.py", V+"commands/add_wheel_to_index_json.py", V+"commands/update_pyproject_toml.py", V+"commands/analyze_wheel.py", V+"commands/main.py"],
     [("argument checks", V+"commands/"), ("writing of outputs", V+"commands/utils.py")])

prop("C28", "Malformed objects and arguments are refused, valid objects never change",
     "Objects for features, properties, descriptions, feature and provider configurations and user configurations can be constructed, by position, name, replacement or from serialised form, exactly when every field is of the declared type at every depth and follows the grammar (lists that must not be empty or repeat elements or names included), and then hold exactly the values given (a description: sorted). "
     "They cannot be changed afterwards, compare equal exactly when of one class with equal fields, order by their fields, and survive copying, pickling and serialising. The functions of the resolver accept exactly arguments of the declared types, checked at every depth and position, and refuse all others with an error instead of giving a result; they never modify their arguments. "
     "Subclasses of the declared types, and the kind of the error, are not covered.",
     ["inputs"], "constructor calls with every combination of field values, and function calls with up to two (thorough: three) arguments varied, over a universe of well-formed values and of values wrong at every depth and position",
     "Tests try a handful of wrong values per field; a check that looks at the first element only, or at one level of nesting, passes them.",
     [V+"models/variant.py", V+"models/provider.py", V+"models/configuration.py", V+"models/base.py", V+"validators/base.py", V+"validators/combining.py", V+"resolver/filtering.py", V+"resolver/sorting.py", V+"resolver/lib.py"],
     [("validators", V+"validators/base.py"), ("models", V+"models/"), ("resolver functions", V+"resolver/")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
