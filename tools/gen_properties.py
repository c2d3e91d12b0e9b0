#!/usr/bin/env python3
"""Source of properties.jsonl (one dict per property, kept readable here)."""
import json
import pathlib

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe):
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": observe,
            "hook_needed": None,
        },
    })


V = "variantlib/"

prop("C01", "Variant hash is a canonical function of the property set",
     """The hash of a variant is the first 8 hexadecimal digits of the SHA-256 of its
     'namespace :: feature :: value' lines, sorted by (namespace, feature, value) and each
     terminated by a newline. It depends on nothing else: not on the order or path by which the variant was built
     (constructor, text, dict, serialized form, metadata document, command line), nor on the process.""",
     ["inputs", "configurations"],
     "Every set of valid properties, every permutation of it, every construction path, every Python hash seed.",
     "Tests compare a handful of fixed hashes; the law quantifies over all property sets and all construction orders.",
     [V + "models/variant.py", V + "commands/get_variant_hash.py"],
     [("VariantDescription.__post_init__ sort", V + "models/variant.py"),
      ("VariantDescription.hexdigest", V + "models/variant.py")],
     ["VariantDescription(...).hexdigest", "variantlib get-variant-hash stdout"])

prop("C02", "Variant model objects accept exactly the documented grammar",
     """A variant feature or property can be created, from fields or from text, exactly when every component is a
     string of its documented alphabet (namespace and feature [a-z0-9_]+, value [a-z0-9_.]+; in text the components are separated
     by '::' with optional surrounding whitespace), and everything else is rejected with a validation error.
     Text and dict forms convert back to an equal object, equal objects compare and hash equal, and a variant description
     always lists its distinct properties in sorted order, rejecting duplicates.""",
     ["inputs"],
     "All strings (including control characters, Unicode digits/letters, trailing newlines), all field values of other types, all property lists.",
     "Tests use a few valid and invalid strings; anchoring, newline and Unicode edge cases need the whole input space.",
     [V + "models/variant.py", V + "constants.py", V + "validators/base.py"],
     [("VALIDATION_*_REGEX fullmatch", V + "constants.py"), ("validate_matches_re", V + "validators/base.py")],
     ["VariantProperty/VariantFeature constructors, from_str, to_str, serialize/deserialize", "VariantDescription"])

prop("C03", "A variant is kept exactly when the platform supports it",
     """Filtering keeps a variant exactly when, for every feature the variant mentions, at least one of its
     values is supported and not forbidden, and neither the feature nor its namespace is forbidden by the user.
     Survivors keep their relative order, and variants with identical properties are reported once, at their first position.""",
     ["inputs"],
     "Every list of variants, supported properties and forbidden namespaces/features/properties.",
     "Tests check small fixed lists; AND-across-features / OR-within-feature semantics interacts with forbidden sets in ways only generated combinations reach.",
     [V + "resolver/filtering.py", V + "resolver/lib.py"],
     [("filter_variants_by_property", V + "resolver/filtering.py"), ("remove_duplicates", V + "resolver/filtering.py"),
      ("filter_variants", V + "resolver/lib.py")],
     ["filter_variants(...)", "sort_and_filter_supported_variants(...)"])

prop("C04", "Supported variants are ordered best first, exactly by priorities",
     """Supported properties are ordered by namespace priority, then feature priority, then value priority, unlisted
     features and values keeping the provider's order after the listed ones. Variants are ordered by comparing, feature by feature in that
     order, the best supported value each of them has (having one beats not having the feature), ties keep input order,
     and a supported namespace without a priority is an error rather than an arbitrary order.""",
     ["inputs"],
     "Every set of variants, supported properties and three-level priorities (partial, foreign, duplicated or empty lists included).",
     "Tests sort a few fixed examples; the lexicographic rule over arbitrarily many features, partial priority lists and multi-value variants is a universal statement.",
     [V + "resolver/sorting.py", V + "resolver/lib.py"],
     [("sort_variant_properties", V + "resolver/sorting.py"), ("sort_variants_descriptions", V + "resolver/sorting.py")],
     ["sort_variant_properties", "sort_variants_descriptions", "sort_and_filter_supported_variants"])

prop("C05", "Index resolution returns the right labels in the right order",
     """Resolving a package's variants index returns the labels of exactly the variants supported by the enabled providers,
     best first. User-configured priorities take precedence over the package's default priorities, which take precedence over the
     order given by the provider; lower levels only order what higher levels leave unlisted.""",
     ["inputs", "configurations"],
     "Every valid index document, provider output, user configuration and optional-provider selection.",
     "Existing tests resolve a couple of mocked documents; the three-way priority layering, label mapping and provider output compose only end to end.",
     [V + "api.py", V + "utils.py", V + "resolver/lib.py"],
     [("get_variants_by_priority", V + "api.py"), ("aggregate_*_priorities", V + "utils.py")],
     ["get_variants_by_priority(...) result"])

prop("C06", "The null variant is always available and always last",
     """Whatever the platform supports, the resolver's answer always contains the null variant exactly once and in last position, even
     when the index does not list it or nothing else is supported, so every variant listed before it is one that has properties.""",
     ["inputs", "configurations"],
     "Every variants index and platform, with the null variant absent, listed once, first, or duplicated.",
     "Tests check single examples with and without a listed null variant.",
     [V + "resolver/lib.py", V + "api.py"],
     [("null variant injection", V + "resolver/lib.py"), ("label_map.setdefault", V + "api.py")],
     ["get_variants_by_priority", "sort_and_filter_supported_variants"])

prop("C07", "Installed packages become ABI-dependency properties, overridably",
     """For every package effective in the running environment the resolver supports, in namespace 'abi_dependency', the normalized
     package name with the major, major.minor and major.minor.micro versions and nothing else; that namespace ranks after all others unless the user gives it a priority.
     An entry 'name==version' of VARIANT_ABI_DEPENDENCY replaces or adds that package (the last one wins);
     entries that are not of that form are ignored with a warning, and no installed package or entry can make resolution fail.""",
     ["inputs", "configurations"],
     "Every set of installed distributions (names, version forms, shadowed duplicates, broken metadata) and every value of the environment variable.",
     "Tests mock a few distributions and well-formed entries; version forms, normalisation and malformed entries are open-ended.",
     [V + "resolver/lib.py"],
     [("inject_abi_dependency", V + "resolver/lib.py"), ("_generate_version_matches", V + "resolver/lib.py")],
     ["inject_abi_dependency lists", "sort_and_filter_supported_variants result"])

prop("C08", "Library calls leave their inputs untouched and are repeatable",
     """No resolution, filtering, sorting, validation, label, environment, expansion, conversion or merge call changes objects the caller passed in
     (except the index a merge is called on) or the environment, working directory or import path of the process, and converted copies share no mutable state with their source.
     Repeating any call with equal arguments gives an equal answer, whatever calls were made in between.""",
     ["histories", "inputs"],
     "Every sequence of API calls over a shared pool of documents, variants, provider outputs and configurations.",
     "Unit tests call each function once on fresh objects, so hidden mutation and leaked state between calls never show.",
     [V + "api.py", V + "resolver/lib.py", V + "models/variant_info.py", V + "variants_json.py", V + "utils.py"],
     [("copy_as_kwargs", V + "models/variant_info.py"), ("in-place copies", V + "resolver/lib.py"),
      ("aggregate_* fresh result", V + "utils.py")],
     ["deep snapshots of arguments before and after each call", "results of repeated calls"])

prop("C09", "Metadata documents are accepted exactly when well-formed",
     """A variants index, a wheel's variant metadata or a project's [variant] table is accepted exactly when it obeys the documented structure:
     allowed keys and types at every level, valid names, labels and values, requirements for install-time providers, namespace priorities matching the providers,
     static properties for exactly the ahead-of-time providers (with feature priorities when several), the null label reserved for the null variant,
     and for a wheel exactly one variant with the expected label. Rejection is always a validation error, and an accepted document yields exactly the data it contains.""",
     ["inputs"],
     "Every JSON/TOML value, in particular every single mutation of a valid document.",
     "Tests hand-pick a few bad documents; rejecting every malformed one and accepting every well-formed one is a universal statement.",
     [V + "variants_json.py", V + "variant_dist_info.py", V + "pyproject_toml.py", V + "models/variant_info.py", V + "validators/keytracking.py"],
     [("_process_common", V + "models/variant_info.py"), ("KeyTrackingValidator.get", V + "validators/keytracking.py"),
      ("VariantsJson._process", V + "variants_json.py")],
     ["VariantsJson(dict)", "VariantDistInfo(text, label)", "VariantPyProjectToml(dict)"])

prop("C10", "Metadata survives serialization and conversion without loss",
     """Writing parsed variant metadata and parsing it again yields equal metadata (priorities, providers, static properties, variants,
     in order), and the text written depends only on the content.
     Converting between project, wheel and index metadata carries over every common field unchanged.""",
     ["inputs"],
     "Every valid metadata document, in every key order, through every conversion.",
     "Tests round-trip a few documents; dropped or reordered fields show only for documents that set them to unusual values.",
     [V + "variants_json.py", V + "variant_dist_info.py", V + "pyproject_toml.py", V + "models/variant_info.py"],
     [("to_str", V + "variants_json.py"), ("copy_as_kwargs", V + "models/variant_info.py")],
     ["VariantsJson.to_str", "conversion constructors"])

prop("C11", "Merging wheels into an index is lossless, checked and all-or-nothing",
     """Merging a wheel's metadata into an index adds its variant and keeps all others when default priorities, providers and static properties
     agree; the merged content does not depend on the merge order, and merging the same wheel twice changes nothing.
     If priorities, providers or static properties differ, or the label is already used for different properties, the merge is refused with a validation error and the index is unchanged.""",
     ["inputs", "histories"],
     "Every sequence of merges of compatible and incompatible wheel metadata.",
     "Tests merge two or three fixed documents; atomicity and order independence quantify over merge histories.",
     [V + "variants_json.py"],
     [("VariantsJson.merge", V + "variants_json.py")],
     ["VariantsJson.merge", "VariantsJson.to_str after each merge"])

prop("C12", "Index commands publish exactly the usable variant wheels",
     """Generating the index of a directory writes, per package version, one file describing exactly the variant wheels there
     whose metadata is valid, matches the file name's label and agrees with the rest; other wheels and files are skipped and left alone.
     Adding the wheels one at a time to an index gives the same content, and a refused addition never modifies an existing index file
     (an existing output is replaced only on request).""",
     ["inputs", "histories"],
     "Every directory of variant, plain, misnamed, mislabelled and inconsistent wheels; every order of additions.",
     "add-wheel-to-index-json has no tests at all, generate-index-json a few fixed directories.",
     [V + "commands/generate_index_json.py", V + "commands/add_wheel_to_index_json.py"],
     [("generate_index_json", V + "commands/generate_index_json.py"), ("add_wheel_to_index_json", V + "commands/add_wheel_to_index_json.py")],
     ["<name>-<version>-variants.json files", "exit of the command", "directory contents"])

prop("C13", "Making and unmaking variant wheels preserves the wheel",
     """Making a variant changes a wheel only by adding (or replacing) the variant metadata file and its RECORD entry: every other
     member keeps its name, order, content and file attributes and every other RECORD line stays, the RECORD matches all members, and the output is named with the variant label.
     The metadata written is the one for the requested variant, and unmaking the variant gives back the original members and RECORD.""",
     ["inputs"],
     "Every wheel (member names, sizes, modes, compression, RECORD quoting, pre-existing metadata), property set and label.",
     "Tests use one tiny fixed wheel; names needing RECORD quoting, large, nested or look-alike members are never sampled.",
     [V + "commands/make_variant.py", V + "commands/unmake_variant.py"],
     [("_make_variant zip copy", V + "commands/make_variant.py"), ("_unmake_variant", V + "commands/unmake_variant.py")],
     ["output wheel members, RECORD and file name"])

prop("C14", "A failing wheel command destroys nothing and leaves no broken wheel",
     """The input wheel of a make-variant or unmake-variant command is never modified unless the command completes, and the output file is at any time either as before or the complete wheel, even when the command is interrupted or killed.
     When the command fails, for whatever reason (bad arguments, rejected properties, damaged wheel, provider failure), files present before it are unchanged and no partial output wheel is left behind.""",
     ["fault_sequences", "inputs", "crash_points"],
     "Every failing combination of wheel damage, property, provider behaviour, label, output directory (including the input's own directory) and pre-existing output.",
     "Tests only check that an exception is raised, never the state of the file system afterwards.",
     [V + "commands/make_variant.py", V + "commands/unmake_variant.py"],
     [("validation before writing", V + "commands/make_variant.py")],
     ["directory snapshots before/after a failing command"])

prop("C15", "Exactly the enabled providers are queried",
     """A provider plugin is loaded and queried exactly when it is enabled: an optional provider only if optional providers are allowed (all, or its
     namespace by name), a conditional one only if its environment marker holds, an ahead-of-time provider only at build time and only if it has a plugin.
     Ahead-of-time providers that are not queried contribute their recorded static properties instead.""",
     ["inputs", "configurations"],
     "Every combination of provider declarations, optional selection, namespace filter, marker and build/install mode.",
     "Tests toggle one flag at a time; the decision is a conjunction over five inputs per provider.",
     [V + "plugins/loader.py", V + "models/variant_info.py"],
     [("PluginLoader._plugin_enabled", V + "plugins/loader.py"), ("_use_static_properties_for_provider", V + "plugins/loader.py"),
      ("ProviderInfo.object_reference", V + "models/variant_info.py")],
     ["PluginLoader(...).namespaces", "get_supported_configs/get_all_configs keys", "plugin side effects"])

prop("C16", "Provider answers are reported faithfully",
     """The configurations reported for a provider are exactly what its plugin returned: same namespace, feature order, value order and
     multi-value flags, for every way of writing the plugin (class, instance, module, nested attribute) and every query.
     Each provider's answer is attributed to that provider even when several are queried together.""",
     ["inputs"],
     "Every set of well-behaved plugins with arbitrary feature and value lists.",
     "Tests query three fixed mocked plugins.",
     [V + "plugins/loader.py", V + "plugins/_subprocess.py", V + "models/provider.py"],
     [("_run_call_subprocess", V + "plugins/loader.py"), ("process_configs", V + "plugins/_subprocess.py"), ("_get_configs", V + "plugins/loader.py")],
     ["get_supported_configs()", "get_all_configs()", "namespaces", "plugin_api_values"])

prop("C17", "A faulty provider is reported as an error, never as an answer",
     """If a plugin cannot be imported, raises, exits or crashes, prints noise instead of an answer, lacks required attributes, or returns data of the wrong type or outside the naming
     rules, querying its configurations fails with an error; two providers claiming the same namespace are refused.
     No partial, coerced or stale answer is produced, the caller's process is unaffected, and queries of other providers afterwards still work.""",
     ["fault_sequences", "inputs"],
     "Every kind of plugin misbehaviour at every stage (import, attribute access, namespace, get_all, get_supported), alone or next to healthy plugins.",
     "Tests cover a dozen fixed faulty mocks.",
     [V + "plugins/loader.py", V + "plugins/_subprocess.py", V + "models/provider.py"],
     [("returncode check", V + "plugins/loader.py"), ("load_plugins/process_configs checks", V + "plugins/_subprocess.py"),
      ("ProviderConfig validators", V + "models/provider.py")],
     ["exception type raised by PluginLoader/EntryPointPluginLoader/ListPluginLoader", "later queries"])

prop("C18", "Caching of provider answers is invisible",
     """Within a process, the answer of any provider query equals what the same query would return if nothing had been cached:
     it depends only on the Python interpreter queried, the set of plugins, and the kind of query.
     Alternating interpreters, plugin selections and query kinds never returns an answer that belongs to another one,
     and an answer does not change because the caller of an earlier query modified the objects that query returned.""",
     ["histories"],
     "Every sequence of queries over several interpreters, plugin sets and methods.",
     "Tests clear the cache before each test, so no history with a warm cache is ever checked.",
     [V + "plugins/loader.py"],
     [("VARIANT_PROVIDER_CACHE_TABLE key", V + "plugins/loader.py")],
     ["results of loader queries in one process vs fresh processes"])

prop("C19", "Variant validation verdicts are correct and gate wheel creation",
     """Validating a variant marks each property valid exactly when its namespace's provider lists that value for that feature, invalid when it does not, and unknown
     when no provider answers for the namespace, and reports every single-value feature given several values.
     A variant wheel is only produced with validation enabled when every property is valid and no such multi-value violation exists.""",
     ["inputs", "configurations"],
     "Every variant, provider declaration and provider output.",
     "Tests validate a few fixed variants; the tri-state verdict is a function over all properties and provider outputs.",
     [V + "api.py", V + "models/variant.py", V + "commands/make_variant.py"],
     [("validate_variant", V + "api.py"), ("VariantValidationResult.is_valid", V + "models/variant.py"), ("_make_variant gate", V + "commands/make_variant.py")],
     ["validate_variant(...) result", "make-variant exit and output"])

prop("C20", "Ahead-of-time providers are frozen faithfully into wheel metadata",
     """When wheel metadata is produced, every ahead-of-time provider with a plugin that the variant uses gets its currently supported properties recorded in provider order, with feature
     priorities completed after the declared ones; all other metadata is carried over unchanged and the result resolves without the plugin.
     Production is refused if such a plugin is not declared fixed, has multi-value features, or does not support a property of the variant.""",
     ["inputs", "configurations"],
     "Every project metadata, variant and provider output.",
     "Tests expand two fixed plugins.",
     [V + "api.py"],
     [("make_variant_dist_info", V + "api.py")],
     ["make_variant_dist_info(...) text"])

prop("C21", "The effective user configuration is the first existing file, validated",
     """The configuration in effect is the one of the first existing file in the order local, virtual environment, user, global, and
     empty priorities if there is none; files are never mixed.
     A file that is not valid TOML, has unknown settings, wrong types or invalid namespaces is an error and never silently ignored, and 'config show' prints TOML that loads as the same configuration.""",
     ["inputs", "configurations"],
     "Every subset of existing files and every file content.",
     "Tests cover single files with fixed contents.",
     [V + "configuration.py", V + "models/configuration.py", V + "commands/config/show.py", V + "commands/config/list_paths.py"],
     [("get_config_file", V + "configuration.py"), ("from_toml_config validators", V + "models/configuration.py"), ("show", V + "commands/config/show.py")],
     ["VariantConfiguration.get_config()", "config show/list-paths output"])

prop("C22", "Editing pyproject.toml changes only the requested providers",
     """Adding an installed provider writes its plugin reference and, if none were given, requirements, and appends its namespace to the default priorities once; deleting removes
     both; afterwards the file describes exactly the requested providers and everything else in it (other tables, comments outside of the
     sections of deleted providers, existing settings of untouched providers) is preserved.
     If a requested provider is not installed or the command is invalid, the file is left byte-for-byte unchanged.""",
     ["inputs", "histories"],
     "Every TOML file, every sequence of add/delete requests and every set of installed provider plugins.",
     "Tests run a few fixed edits with two mocked plugins.",
     [V + "commands/update_pyproject_toml.py", V + "plugins/loader.py"],
     [("update_pyproject_toml", V + "commands/update_pyproject_toml.py"), ("EntryPointPluginLoader", V + "plugins/loader.py")],
     ["the TOML file before/after"])

prop("C23", "Variant labels are unambiguous",
     """The default label of a variant is its hash, and 'null' exactly for the null variant; a custom label is accepted exactly when it is 1 to 16 characters
     of [0-9a-z._] and 'null' is used for the null variant and only for it.
     A wheel file name built from any accepted label is recognised as a variant wheel with that label and base name, and plain wheel names as having none, by every command.""",
     ["inputs"],
     "Every label, variant and wheel file name (with and without build tags).",
     "Tests try a handful of labels and file names.",
     [V + "api.py", V + "constants.py", V + "commands/make_variant.py"],
     [("get_variant_label", V + "api.py"), ("VALIDATION_WHEEL_NAME_REGEX", V + "constants.py")],
     ["get_variant_label", "wheel file names read and written by the commands"])

prop("C24", "Marker environment reflects the variant exactly",
     """The environment exposed for dependency markers contains exactly the variant's namespaces, features and properties, in canonical text form, and the label exactly when one is given,
     so a marker using 'in variant_namespaces/features/properties' or comparing variant_label is true exactly when the variant has that item.""",
     ["inputs"],
     "Every variant, label and marker over them.",
     "Tests evaluate a few fixed variants.",
     [V + "api.py"],
     [("get_variant_environment_dict", V + "api.py")],
     ["get_variant_environment_dict", "packaging Marker.evaluate with it"])

prop("C25", "Reporting commands show what the library computes",
     """The provider listing, provider configuration, platform analysis, wheel analysis and variant hash commands print exactly what the corresponding library calls return for the same
     environment and arguments (filters included), and modify no file.""",
     ["inputs", "configurations"],
     "Every set of installed provider plugins, filters, wheels and property lists.",
     "Tests compare fixed snapshots for one mocked environment.",
     [V + "commands/analyze_wheel.py", V + "commands/analyze_platform.py", V + "commands/plugins/get_configs.py", V + "commands/plugins/list_plugins.py", V + "commands/get_variant_hash.py"],
     [("get_configs", V + "commands/plugins/get_configs.py"), ("analyze_wheel", V + "commands/analyze_wheel.py"),
      ("analyze_platform", V + "commands/analyze_platform.py")],
     ["command stdout"])

prop("C26", "Single-variant support check agrees with resolution",
     """Checking whether one variant is supported gives true exactly when resolving an index that contains it, on the same platform and with the same optional providers, would offer it;
     the null variant is always supported.""",
     ["inputs", "configurations"],
     "Every variant, metadata document, provider output and environment (installed packages included).",
     "Tests check the two entry points separately on fixed data.",
     [V + "api.py"],
     [("check_variant_supported", V + "api.py"), ("get_variants_by_priority", V + "api.py")],
     ["check_variant_supported vs get_variants_by_priority"])

prop("C27", "Answers do not depend on hash seed or incidental input order",
     """Hashes, serialized metadata, resolution results (including those depending on installed packages), generated indexes and produced wheel metadata are the same in every process whatever the Python hash seed and directory listing order, and
     permuting the keys of an index's providers, priorities and variants objects changes the resolution only between variants that are ranked equal.""",
     ["configurations", "inputs"],
     "Every document and platform, across processes with different hash seeds and permuted inputs.",
     "The test suite runs in one process with one hash seed.",
     [V + "api.py", V + "variants_json.py", V + "resolver/sorting.py", V + "commands/generate_index_json.py"],
     [("sorting instead of set order", V + "resolver/sorting.py"), ("sort_keys", V + "variants_json.py")],
     ["outputs of the same script under different PYTHONHASHSEED"])

prop("C28", "Provider requirements are reported completely and only as asked",
     """The requirements reported for a set of provider namespaces are exactly the union of the requirements declared by those providers,
     all declared providers by default, excluding ahead-of-time providers exactly when asked to, and asking for an undeclared namespace is an error; building a variant in an isolated environment installs exactly the requirements
     of the declared providers of the namespaces the variant uses, and makes no wheel when they cannot be installed.""",
     ["inputs"],
     "Every metadata document, namespace selection and variant built.",
     "Tests cover one fixed document.",
     [V + "models/variant_info.py", V + "commands/make_variant.py"],
     [("get_provider_requires", V + "models/variant_info.py"), ("_make_variant", V + "commands/make_variant.py")],
     ["get_provider_requires result", "what is installed into the build environment", "wheels made"])

prop("C29", "Variants that are built, stored and indexed are the ones found and offered",
     """Wheels made by make-variant for any set of variants, indexed with generate-index-json or one by one with add-wheel-to-index-json
     (both give the same index), are offered by the resolver in exactly the order the project's priorities and the supported properties
     imply, and a wheel's label, its variant.json, its index entry and its own supported state always agree.""",
     ["inputs", "histories"],
     "Every project metadata, set of variants, build order, way of indexing, plugin behaviour, user configuration and installed packages.",
     "Tests check each command on fixed files; no test follows a variant from the build to the choice made by an installer.",
     [V + "commands/make_variant.py", V + "commands/generate_index_json.py", V + "commands/add_wheel_to_index_json.py", V + "api.py"],
     [("get_variants_by_priority", V + "api.py"), ("check_variant_supported", V + "api.py"), ("_make_variant", V + "commands/make_variant.py")],
     ["wheels and index files written", "labels returned", "support decision"])

prop("C30", "The command line runs the named command and its exit status tells the truth",
     """Running the variantlib command has exactly the effect and standard output of the named (sub)command's function called with the arguments that follow, however paths are spelled and
     whatever the environment; it exits with status zero exactly when the operation succeeded, and a failure gives its reason on standard error.
     Unknown commands, options or missing arguments are refused without touching any file.""",
     ["inputs", "configurations"],
     "Every command, argument vector, path spelling, environment and failure.",
     "Tests call the command functions in process; none runs the command as users and build scripts do.",
     [V + "commands/main.py", V + "commands/config/main.py", V + "commands/plugins/main.py", V + "commands/utils.py"],
     [("main", V + "commands/main.py"), ("get_registered_commands", V + "commands/utils.py")],
     ["exit status, standard output and error of the process", "files before and after"])

prop("C31", "Index and project files are replaced completely or not at all",
     """Whenever generate-index-json, add-wheel-to-index-json or update-pyproject-toml is refused, fails, is interrupted or is killed at any point, every file it was to write
     is afterwards either exactly as it was before (absent if it was absent) or has the complete new content, all other files are unchanged, and unless it was killed nothing else is left behind.
     Replacing an existing file keeps its permissions, and writes to the target of a symbolic link.""",
     ["crash_points", "fault_sequences", "inputs"],
     "Every step at which the command can be killed, interrupted or denied a write, every size limit, every state of the existing file.",
     "Tests only run these commands to completion.",
     [V + "commands/generate_index_json.py", V + "commands/add_wheel_to_index_json.py", V + "commands/update_pyproject_toml.py", V + "commands/utils.py"],
     [("replace_on_success", V + "commands/utils.py"), ("update_pyproject_toml", V + "commands/update_pyproject_toml.py")],
     ["files after the command ended or was killed, compared with those before and with those of an undisturbed run"])

prop("C32", "Calls made concurrently from several threads answer as if made alone",
     """Library calls made from several threads at once, over shared or separate objects and at any interleaving, each give the answer the same call gives when it is made alone.
     None of them fails because of another, changes what its caller passed in, or disturbs the environment, working directory or import path of the process.""",
     ["schedules", "histories", "inputs"],
     "Every set of concurrent calls, every sharing of arguments and caches, and every interleaving of the lines of the library.",
     "Tests make one call at a time.",
     [V + "plugins/loader.py", V + "configuration.py", V + "utils.py", V + "resolver/lib.py", V + "models/variant.py"],
     [("VARIANT_PROVIDER_CACHE_TABLE", V + "plugins/loader.py"), ("VariantConfiguration", V + "configuration.py"),
      ("hexdigest", V + "models/variant.py")],
     ["answers of concurrent calls compared with those of the same calls alone"])

prop("C33", "Refusals and omissions name what is at fault",
     """When a document, text, label, merge, variant, plugin or command-line argument is refused, the error names what is at fault: the key path of a faulty priority, provider or
     static property entry, and the offending token, property, feature, label, namespace, provider or file; a variant refused for several invalid properties has all of them named.
     generate-index-json reports at warning level or above the name of every variant wheel it leaves out and the labels of every set sharing one variant, and
     reports nothing at that level when all wheels agree and are usable.""",
     ["inputs", "fault_sequences"],
     "Every kind of fault at every place of every document, every number of faults, every faulty wheel among usable ones.",
     "Tests match the messages of a few faults in fixed documents.",
     [V + "validators/keytracking.py", V + "validators/base.py", V + "variants_json.py", V + "models/variant.py", V + "plugins/loader.py",
      V + "commands/generate_index_json.py", V + "commands/make_variant.py"],
     [("KeyTrackingValidator", V + "validators/keytracking.py"), ("generate_index_json", V + "commands/generate_index_json.py")],
     ["error text and log messages searched for the injected fault"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    n = len([s for s in p["statement"].replace("; ", " ").split(". ") if s])
    assert n <= 3, (p["id"], n)
print(len(P))
