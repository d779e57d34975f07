"""Writes /verif/properties.jsonl from the table below (run by hand after edits)."""
import json, pathlib

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe,
                    **({"state": state} if state else {}),
                    "hook_needed": None},
    })


L = "variantlib/"
# ------------------------------------------------------------------ resolver
prop("R01", "A variant is offered exactly when the platform supports it",
     "A variant is offered if and only if every feature it names has at least one value that is supported on the platform and not forbidden, and it uses no forbidden namespace and no forbidden feature. A variant without properties is always compatible. Forbidding a property takes precedence over supporting it.",
     ["inputs"], "every set of variants, supported properties and forbidden namespaces/features/properties",
     "The tests filter a handful of hand-picked descriptions; the rule must hold for every combination of repeated features, partially supported values and overlapping forbid-lists.",
     [L + "resolver/filtering.py", L + "resolver/lib.py", L + "api.py"],
     [("filter_variants", L + "resolver/lib.py"), ("filter_variants_by_property", L + "resolver/filtering.py"),
      ("check_variant_supported", L + "api.py")],
     ["resolver.lib.filter_variants", "api.check_variant_supported"])
prop("R02", "Filtering drops only duplicates and incompatible variants",
     "The list of offered variants is a sub-sequence of the candidate list: order is preserved, nothing is invented, and of several equal candidates exactly the first is kept. Two different variants are never mistaken for duplicates of each other.",
     ["inputs"], "every list of candidate variants",
     "Tests use fixed lists; de-duplication correctness is about all pairs of descriptions, including ones whose text differs only in where the field boundaries lie.",
     [L + "resolver/filtering.py", L + "models/variant.py"],
     [("remove_duplicates", L + "resolver/filtering.py"), ("VariantDescription.hexdigest", L + "models/variant.py")],
     ["resolver.filtering.remove_duplicates", "resolver.lib.filter_variants"])
prop("R03", "Supported properties are ordered namespace, feature, then value",
     "The supported properties of a platform are totally ordered: first by namespace priority, then within a namespace by feature priority, then within a feature by value priority; whatever is not mentioned in a priority list follows the mentioned ones in the order the provider listed it. All properties of one namespace, and of one feature, stay contiguous and none is lost or added. A property of a namespace without priority is refused. (The properties of one feature are given contiguously within a namespace, as provider configurations list them.)",
     ["inputs", "configurations"], "every property list and every set of priority lists",
     "A test fixes one property list and one configuration; ordering rules interact (missing entries, interleaved namespaces, same feature name in two namespaces) in ways a handful of lists cannot cover.",
     [L + "resolver/sorting.py"],
     [("sort_variant_properties", L + "resolver/sorting.py")],
     ["resolver.sorting.sort_variant_properties"])
prop("R04", "Variants are returned best first",
     "Variants are returned in lexicographic preference order: at the most important feature where two variants differ, the one whose best supported value ranks higher comes first, and having a supported value beats not using the feature at all. Variants that cannot be distinguished this way keep their relative order. A variant that is not fully supported is refused rather than ranked.",
     ["inputs", "configurations"], "every list of compatible variants and every ordered property list",
     "The number of orderings is combinatorial; tests enumerate one provider configuration.",
     [L + "resolver/sorting.py", L + "resolver/lib.py"],
     [("sort_variants_descriptions", L + "resolver/sorting.py"), ("sort_and_filter_supported_variants", L + "resolver/lib.py")],
     ["resolver.sorting.sort_variants_descriptions", "resolver.lib.sort_and_filter_supported_variants"])
prop("R05", "The null variant is always offered exactly once, last",
     "Whatever variants, supported properties and priorities are given, the result of sorting and filtering contains the null variant exactly once and as its last element, whether or not the candidate list contained it.",
     ["inputs", "configurations"], "every candidate list (with or without the null variant), supported properties, priorities and forbid-lists",
     "The fallback must hold for all inputs, including empty platforms and lists with repeated null variants.",
     [L + "resolver/lib.py", L + "resolver/sorting.py"],
     [("sort_and_filter_supported_variants", L + "resolver/lib.py")],
     ["resolver.lib.sort_and_filter_supported_variants"])
prop("R06", "Selection does not depend on presentation",
     "The order in which candidate variants are listed, the order in which a variant's properties are written and the presence of other candidates do not change which of two distinguishable variants is preferred or whether a variant is offered.",
     ["inputs", "configurations"], "every pair of presentations (permutations, additional candidates) of the same input",
     "This is a relation between two runs over all inputs; single-run tests do not compare presentations.",
     [L + "resolver/lib.py", L + "resolver/sorting.py", L + "models/variant.py"],
     [("sort_and_filter_supported_variants", L + "resolver/lib.py"), ("VariantDescription", L + "models/variant.py")],
     ["resolver.lib.sort_and_filter_supported_variants"])
prop("R07", "Resolution leaves the caller's data untouched",
     "Sorting and filtering variants never changes the lists and dictionaries the caller passed in: candidate variants, supported properties, priorities and forbid-lists have the same contents afterwards, so a second call with the same arguments gives the same result.",
     ["inputs", "histories"], "every argument combination and any number of repeated calls",
     "Tests build fresh arguments for every call and only look at the return value.",
     [L + "resolver/lib.py", L + "resolver/filtering.py", L + "resolver/sorting.py", L + "utils.py"],
     [("sort_and_filter_supported_variants", L + "resolver/lib.py")],
     ["resolver.lib.sort_and_filter_supported_variants", "resolver.lib.filter_variants"])
prop("R08", "Priority lists aggregate by precedence without loss",
     "Aggregating priority lists yields exactly the items of all inputs, an item of an earlier list precedes every item found only in later lists, and items of one list keep their order; absent lists are skipped. This holds for namespace lists, per-namespace feature lists and per-feature value lists, and the inputs are left unchanged.",
     ["inputs", "configurations"], "every sequence of priority lists/dicts, absent ones included",
     "Tests use a few hand-written lists; overlap patterns between user configuration and package defaults are unbounded.",
     [L + "utils.py", L + "api.py"],
     [("aggregate_namespace_priorities", L + "utils.py"), ("aggregate_feature_priorities", L + "utils.py"), ("aggregate_property_priorities", L + "utils.py")],
     ["utils.aggregate_*"])
prop("R09", "ABI-dependency support mirrors the installed packages",
     "For every installed package the platform supports exactly the ABI-dependency properties major, major.minor and major.minor.micro of its version under its normalised name, versions given through the environment override installed ones, and malformed overrides are ignored without affecting the others. This namespace ranks after all explicitly prioritised ones.",
     ["inputs", "configurations"], "every set of installed packages and every override string",
     "Tests use a few literal environment values; names, separators and versions are arbitrary strings.",
     [L + "resolver/lib.py"],
     [("inject_abi_dependency", L + "resolver/lib.py")],
     ["resolver.lib.inject_abi_dependency", "resolver.lib.sort_and_filter_supported_variants"])
prop("R10", "Selection from variants.json returns known labels in preference order",
     "Selecting variants from a variants.json document returns every compatible variant once, by (one of) its label(s), most preferred first under user configuration then package defaults then provider order, every returned label belongs to the document except the implicit null label, and the null variant's label comes last.",
     ["inputs", "configurations"], "every variants.json document, platform support and user configuration",
     "End-to-end composition over all documents and configurations; tests check one document shape.",
     [L + "api.py", L + "variants_json.py", L + "resolver/lib.py", L + "utils.py", L + "plugins/loader.py"],
     [("get_variants_by_priority", L + "api.py")],
     ["api.get_variants_by_priority"])
# ------------------------------------------------------------------ identity
prop("V01", "The variant hash identifies exactly the property set",
     "The hash of a variant depends only on its set of properties: it is the same for every order in which they are given, and variants with different property sets are hashed from different data. It is always eight lowercase hexadecimal digits.",
     ["inputs"], "every pair of property sets, in every order",
     "Injectivity is a statement about all pairs of descriptions; tests compare a few hash values.",
     [L + "models/variant.py"],
     [("VariantDescription.hexdigest", L + "models/variant.py"), ("VariantProperty.to_str", L + "models/variant.py")],
     ["models.variant.VariantDescription.hexdigest", "commands.get_variant_hash"])
prop("V02", "Text form of features and properties round-trips",
     "Writing a property or feature as text and reading it back yields an equal object, surrounding and separator whitespace is insignificant, and any string that is not of the documented form is refused with a validation error rather than read as something else.",
     ["inputs"], "every property/feature and every input string",
     "The grammar is over all strings; tests try a dozen.",
     [L + "models/variant.py", L + "constants.py"],
     [("VariantProperty.from_str", L + "models/variant.py"), ("VariantFeature.from_str", L + "models/variant.py")],
     ["models.variant.VariantProperty.from_str", "models.variant.VariantFeature.from_str"])
prop("V03", "Variant descriptions round-trip through their data forms",
     "A variant description converted to its nested-dictionary form or to its list-of-properties form and back equals the original, and the nested form lists every property exactly once and nothing else.",
     ["inputs"], "every variant description",
     "Grouping by namespace and feature must be lossless for all repetition patterns.",
     [L + "models/variant.py"],
     [("VariantDescription.to_dict", L + "models/variant.py"), ("VariantDescription.from_dict", L + "models/variant.py")],
     ["models.variant.VariantDescription"])
prop("V04", "Only well-formed model objects can exist",
     "A variant feature, variant property, feature configuration, provider configuration or user configuration can be constructed if and only if its names and values are strings of the documented character sets and its lists satisfy the documented uniqueness and non-emptiness rules (the values in a user configuration's property priorities are free-form text); everything else, including values of the wrong type or with trailing characters, is refused with a validation error.",
     ["inputs"], "every value of every field, of every type",
     "Acceptance is over all strings and types; tests sample a few bad values.",
     [L + "models/variant.py", L + "models/provider.py", L + "models/configuration.py", L + "validators/base.py", L + "constants.py"],
     [("BaseModel.__post_init__", L + "models/base.py"), ("validate_matches_re", L + "validators/base.py"), ("validate_type", L + "validators/base.py")],
     ["models.*"])
prop("V05", "A variant description is a canonical set of properties",
     "Descriptions built from the same properties in any order are equal, list them in the same sorted order and share one hash; a description with a repeated property is refused with a validation error.",
     ["inputs"], "every list of properties in every order",
     "Permutation invariance and duplicate refusal quantify over all lists.",
     [L + "models/variant.py"],
     [("VariantDescription.__post_init__", L + "models/variant.py"), ("validate_list_all_unique", L + "validators/base.py")],
     ["models.variant.VariantDescription"])
prop("V06", "Variant labels are well-formed and null is reserved",
     "The label of a variant is the reserved null label exactly when the variant has no properties; otherwise it is the given custom label if that consists of 1 to 16 characters from the documented set, or the variant hash if none is given. Any other custom label is refused with a validation error.",
     ["inputs"], "every variant and every custom label string",
     "Labels are arbitrary strings; tests try four.",
     [L + "api.py", L + "constants.py"],
     [("get_variant_label", L + "api.py")],
     ["api.get_variant_label"])
prop("V07", "Marker environment lists exactly the variant's names",
     "The marker-evaluation environment derived from a variant contains exactly its namespaces, its features and its properties in text form, and carries the label only if one was given.",
     ["inputs"], "every variant description and label",
     "Quantifies over all descriptions.",
     [L + "api.py"],
     [("get_variant_environment_dict", L + "api.py")],
     ["api.get_variant_environment_dict"])
# ------------------------------------------------------------------ metadata
prop("M01", "Variant metadata documents round-trip losslessly",
     "Serialising the variant metadata of a project or wheel and reading the text back yields equal metadata: priorities, providers with all their settings, static properties and every labelled variant survive, and the order of every priority and value list is preserved.",
     ["inputs"], "every valid metadata object",
     "Optional fields, defaults and list orders combine freely; tests round-trip one file.",
     [L + "variants_json.py", L + "models/variant_info.py", L + "variant_dist_info.py"],
     [("VariantsJson.to_str", L + "variants_json.py"), ("_process_common", L + "models/variant_info.py")],
     ["variants_json.VariantsJson"])
prop("M02", "Accepted metadata is well-formed and is what the document says",
     "A metadata document is accepted if and only if its variant tables have only known keys of the documented types and character sets, its namespace priorities name exactly the providers, install-time providers have requirements, ahead-of-time static properties are given for exactly the required providers with feature priorities where needed, and null labels and null variants coincide. An accepted document is represented faithfully, value for value.",
     ["inputs"], "every JSON/TOML-shaped document",
     "The document space is unbounded; tests try selected malformed documents.",
     [L + "variants_json.py", L + "models/variant_info.py", L + "pyproject_toml.py", L + "validators/keytracking.py"],
     [("_process_common", L + "models/variant_info.py"), ("KeyTrackingValidator", L + "validators/keytracking.py"), ("VariantsJson._process", L + "variants_json.py")],
     ["variants_json.VariantsJson", "pyproject_toml.VariantPyProjectToml"])
prop("M03", "Malformed metadata is refused with a validation error only",
     "Whatever value of whatever type appears anywhere in a variants.json or pyproject variant table, reading it either succeeds or raises a validation error; no other exception escapes and no partially typed data is accepted.",
     ["inputs"], "every JSON value at every position of the document",
     "The wrong-type space at every position is not enumerated by tests.",
     [L + "variants_json.py", L + "models/variant_info.py", L + "validators/keytracking.py", L + "validators/base.py"],
     [("KeyTrackingValidator.get", L + "validators/keytracking.py"), ("_validate_type", L + "validators/base.py")],
     ["variants_json.VariantsJson", "pyproject_toml.VariantPyProjectToml"])
prop("M04", "Merging metadata is a lossless union or a clean refusal",
     "Merging the metadata of another wheel either yields metadata containing every variant of both, under its label and with its properties, and the common priorities, providers and static properties, or raises a validation error because the two disagree and leaves the target unchanged. The other operand is never modified.",
     ["inputs", "histories"], "every pair of metadata objects and sequences of merges",
     "Tests merge two fixed documents and never look at the target after a refused merge.",
     [L + "variants_json.py"],
     [("VariantsJson.merge", L + "variants_json.py")],
     ["variants_json.VariantsJson.merge"])
prop("M05", "Converting metadata copies it",
     "Converting variant metadata between the project, index and wheel representations preserves priorities, providers and static properties exactly, starts with no variants, and shares no mutable data with the source: later changes to one are invisible in the other.",
     ["inputs", "histories"], "every metadata object and every subsequent modification of the copy",
     "Aliasing shows only when a copy is modified later; tests compare values once.",
     [L + "models/variant_info.py", L + "variants_json.py", L + "pyproject_toml.py", L + "variant_dist_info.py"],
     [("copy_as_kwargs", L + "models/variant_info.py")],
     ["variants_json.VariantsJson", "pyproject_toml.VariantPyProjectToml", "variant_dist_info.VariantDistInfo"])
prop("M06", "Wheel metadata describes exactly one, correctly labelled variant",
     "Wheel variant metadata is accepted only if it describes exactly one variant and, when a label is expected, under that label; otherwise it is refused with a validation error. Replacing its label keeps the description; replacing its description labels it by its hash; there is always exactly one variant.",
     ["inputs"], "every wheel metadata document and expected label",
     "Quantifies over all documents and labels.",
     [L + "variant_dist_info.py"],
     [("VariantDistInfo", L + "variant_dist_info.py")],
     ["variant_dist_info.VariantDistInfo"])
# ------------------------------------------------------------------ plugins
prop("P01", "Only the enabled provider plugins are queried",
     "A provider plugin is loaded if and only if it is an install-time provider, or an ahead-of-time provider with requirements when those were asked for, and it passes the namespace filter, is not optional unless optional plugins (all, or this namespace) were enabled, and its environment marker holds.",
     ["configurations", "inputs"], "every provider table and loader configuration",
     "The decision table multiplies six settings per provider; tests cover single rows.",
     [L + "plugins/loader.py"],
     [("PluginLoader._plugin_enabled", L + "plugins/loader.py")],
     ["plugins.loader.PluginLoader"])
prop("P02", "Provider configurations come from the right source",
     "The configurations reported for a namespace are exactly those its loaded plugin returned, in its order, or, if no plugin is loaded for it, the static properties of the package as single-value features; no namespace is reported from both, two plugins claiming one namespace are refused, and a plugin that supports nothing contributes nothing.",
     ["inputs", "configurations"], "every set of plugin answers and static properties",
     "Plugin answers are arbitrary; tests use three mocked plugins.",
     [L + "plugins/loader.py"],
     [("_get_configs", L + "plugins/loader.py"), ("_load_all_plugins_from_tuple", L + "plugins/loader.py")],
     ["plugins.loader.BasePluginLoader.get_supported_configs", "plugins.loader.BasePluginLoader.get_all_configs"])
prop("P03", "Cached plugin answers never leak between different queries",
     "In any sequence of plugin queries made by one process, each query's answer is the one the plugins would give for that query in that Python interpreter with those options: a remembered answer is reused only for an identical query of the same plugins, command, options and interpreter, and failed queries are not remembered.",
     ["histories"], "every history of loader uses in one process",
     "The cache is cleared between tests, so no test sees a second, different query.",
     [L + "plugins/loader.py"],
     [("_call_subprocess", L + "plugins/loader.py"), ("VARIANT_PROVIDER_CACHE_TABLE", L + "plugins/loader.py")],
     ["plugins.loader.BasePluginLoader"],
     [{"name": "VARIANT_PROVIDER_CACHE_TABLE", "meaning": "process-wide memo of plugin answers", "where": L + "plugins/loader.py"}])
prop("P04", "Non-conforming plugins are refused",
     "The plugin host answers a request only with data obtained from plugins that define every required attribute and whose answers have the documented type, passes feature names, value order and multi-value flags through unchanged, and when fixed answers are required refuses every plugin that does not declare itself ahead-of-time. Anything else ends in an error instead of an answer.",
     ["inputs"], "every plugin object and every answer it can give",
     "Tests use a few broken plugins.",
     [L + "plugins/_subprocess.py", L + "validators/base.py", L + "protocols.py"],
     [("load_plugins", L + "plugins/_subprocess.py"), ("process_configs", L + "plugins/_subprocess.py"), ("main", L + "plugins/_subprocess.py")],
     ["plugins._subprocess.main"])
prop("P05", "Variant validation gives the right verdict for each property",
     "Validating a variant reports each of its properties as valid exactly when the provider of its namespace lists its value for its feature, as invalid when the provider is known but does not, and as unknown when no provider serves the namespace; a single-value feature given several values is reported, and the overall verdict is negative for any of these (unknown ones only if they are disallowed).",
     ["inputs", "configurations"], "every variant and every provider answer",
     "Tests validate one description.",
     [L + "api.py", L + "models/variant.py"],
     [("validate_variant", L + "api.py"), ("VariantValidationResult", L + "models/variant.py")],
     ["api.validate_variant", "models.variant.VariantValidationResult"])
prop("P06", "Generated wheel metadata is faithful and installable",
     "The wheel metadata generated for a variant carries its label, its properties and the project's priorities and providers; for every ahead-of-time plugin it uses it records all values the plugin supports, in order, with all features prioritised; a property the plugin does not support, or a multi-value ahead-of-time feature, is refused. The project metadata passed in is not modified.",
     ["inputs", "configurations"], "every variant, project metadata and plugin answer",
     "Tests check one plugin and one description.",
     [L + "api.py", L + "variant_dist_info.py"],
     [("make_variant_dist_info", L + "api.py")],
     ["api.make_variant_dist_info"])
prop("P07", "Provider requirements are collected exactly",
     "The requirements reported for a set of namespaces are the union of the requirements of those providers, ahead-of-time ones only when asked for; with no set given, all providers are meant. The plugin entry point of a provider is its declared one, or derived from its first requirement's package name.",
     ["inputs", "configurations"], "every provider table and namespace set",
     "Tests check single providers.",
     [L + "models/variant_info.py"],
     [("get_provider_requires", L + "models/variant_info.py"), ("object_reference", L + "models/variant_info.py")],
     ["models.variant_info.VariantInfo.get_provider_requires"])
# ------------------------------------------------------------------ wheel tools
prop("W01", "Wheel filenames split unambiguously",
     "Every wheel filename built from a name, version, optional build tag, python, ABI and platform tag and optional variant label is recognised and split into exactly these parts, so that dropping and re-adding the label gives back the same name; a plain wheel is never taken for a variant wheel. Names that do not have this shape are refused.",
     ["inputs"], "every filename",
     "Filename components are arbitrary strings; tests try a dozen names.",
     [L + "constants.py", L + "commands/make_variant.py", L + "commands/unmake_variant.py"],
     [("VALIDATION_WHEEL_NAME_REGEX", L + "constants.py")],
     ["constants.VALIDATION_WHEEL_NAME_REGEX"])
prop("W02", "Making a variant wheel changes only its variant metadata",
     "Turning a wheel into a variant wheel keeps every other file's name, order and content, replaces any existing variant metadata by the new one, names the output after the base wheel and the variant label, and writes a record list whose entry for the metadata carries its true digest and size while all other entries are unchanged. Properties the plugins do not accept (invalid, of an unknown namespace, or several values of a single-valued feature) are refused unless validation is skipped; the plugins are asked in an isolated environment into which exactly the requirements of the namespaces used are installed, with the installer asked for, unless isolation is switched off. A refusal writes nothing, and the input wheel is never destroyed. (For valid wheels: with a record list, archive intact.)",
     ["inputs"], "every wheel archive, property set and label",
     "Archives are arbitrary; tests convert one package.",
     [L + "commands/make_variant.py"],
     [("_make_variant", L + "commands/make_variant.py")],
     ["commands.make_variant._make_variant"])
prop("W03", "Unmaking a variant wheel restores the original",
     "Turning a variant wheel back removes exactly the variant metadata file and its record entry and keeps everything else, so making a variant of a plain wheel and unmaking it gives back the same files, contents, order, records and filename. A plain wheel is left alone.",
     ["inputs", "histories"], "every wheel archive",
     "Archives are arbitrary; tests convert one package.",
     [L + "commands/unmake_variant.py", L + "commands/make_variant.py"],
     [("_unmake_variant", L + "commands/unmake_variant.py")],
     ["commands.unmake_variant._unmake_variant"])
prop("W04", "The generated index lists exactly the usable variant wheels",
     "The index generated for a directory lists, per project version, the variant of every wheel whose metadata is valid, matches the label in its filename and agrees with the other wheels, under that label and with that wheel's properties; plain wheels, wheels with missing, invalid or mislabelled metadata and wheels that disagree with the others contribute nothing and do not disturb the rest. A directory that does not exist is refused.",
     ["inputs"], "every directory of wheels, in every listing order",
     "Tests index two fixed directories.",
     [L + "commands/generate_index_json.py", L + "variants_json.py", L + "variant_dist_info.py"],
     [("generate_index_json", L + "commands/generate_index_json.py"), ("merge", L + "variants_json.py")],
     ["commands.generate_index_json.generate_index_json"])
prop("W05", "Adding a wheel to an index extends it by that wheel only",
     "Adding a variant wheel to an existing index writes the old entries plus that wheel's variant under its label, or fails without writing if the file is not a variant wheel, its metadata is missing, invalid or mislabelled, it disagrees with the index, or the output exists and overwriting was not requested.",
     ["inputs"], "every index and wheel",
     "The command has no test at all.",
     [L + "commands/add_wheel_to_index_json.py", L + "variants_json.py"],
     [("add_wheel_to_index_json", L + "commands/add_wheel_to_index_json.py")],
     ["commands.add_wheel_to_index_json.add_wheel_to_index_json"])
prop("W06", "Updating the project file keeps provider table and priorities in step",
     "After adding and deleting namespaces in a project file, each deleted namespace (unless re-added) appears neither among the providers nor in the namespace priorities, each added one appears in both exactly once, with its plugin's entry point and its existing requirements or, if it had none, its plugin's package, and all other entries are unchanged. Repeating an update that does not delete and add the same namespace changes nothing; adding a namespace no installed plugin provides fails without writing.",
     ["inputs", "histories"], "every project table and every sequence of additions and deletions",
     "Tests apply three single updates.",
     [L + "commands/update_pyproject_toml.py"],
     [("update_pyproject_toml", L + "commands/update_pyproject_toml.py")],
     ["commands.update_pyproject_toml.update_pyproject_toml"])
prop("W07", "Analysing a wheel reports its true variant",
     "Analysing a variant wheel prints its variant hash (\"null\" for the null variant) and exactly the properties recorded in its metadata, each once, and fails if the metadata is missing, invalid or does not match the label in the filename; a plain wheel is never reported as a variant.",
     ["inputs"], "every wheel filename and archive",
     "Tests analyse four files.",
     [L + "commands/analyze_wheel.py"],
     [("analyze_wheel", L + "commands/analyze_wheel.py")],
     ["commands.analyze_wheel.analyze_wheel"])
# ------------------------------------------------------------------ configuration
prop("C01", "The most specific configuration file wins, faithfully",
     "The active configuration is that of the first existing file in the order local, virtual environment, user, global; it is represented exactly as written, absent tables are empty, and with no file the configuration is empty. Unparseable, unreadable or ill-typed files are refused instead of being partly used.",
     ["configurations"], "every subset of existing files and every file content",
     "Tests check single files.",
     [L + "configuration.py", L + "models/configuration.py"],
     [("get_config_file", L + "configuration.py"), ("get_config_from_file", L + "configuration.py"), ("from_toml_config", L + "models/configuration.py")],
     ["configuration.VariantConfiguration.get_config"])
# ------------------------------------------------------------------ not applicable ones
prop("C02", "Showing the configuration shows it faithfully",
     "What `config show` prints, read back as a configuration file, is exactly the active configuration, or that of the level asked for (empty tables, which mean nothing, aside); asking for a level without a file, or a malformed file, fails and prints nothing. `config list-paths` lists the four files in order of precedence and says which are missing.",
     ["configurations"], "every subset of existing files and every file content",
     "Tests show one file.",
     [L + "commands/config/show.py", L + "commands/config/list_paths.py", L + "configuration.py"],
     [("show", L + "commands/config/show.py"), ("list_paths", L + "commands/config/list_paths.py")],
     ["commands.config.show.show", "commands.config.list_paths.list_paths"])
prop("C03", "The command line runs the command that is named",
     "`variantlib`, `variantlib config` and `variantlib plugins` run the command that is registered for them under the given name, and only that one, once, with exactly the arguments that follow its name in the order given (options included, whatever the command makes of them; `--` aside), and plugin commands with the installed plugins. A name that is not registered there, even if it is elsewhere or begins like a registered one, is refused and nothing is run; asking for the version runs nothing.",
     ["inputs", "configurations"], "every set of registered commands, name and argument list",
     "Tests call the commands' functions; no test goes through the command line.",
     [L + "commands/main.py", L + "commands/utils.py", L + "commands/config/main.py", L + "commands/plugins/main.py"],
     [("get_registered_commands", L + "commands/utils.py"), ("main", L + "commands/main.py")],
     ["commands.main.main", "commands.config.main.main", "commands.plugins.main.main"])
prop("V08", "The hash command prints the hash of the property set",
     "`get-variant-hash` prints the variant hash of the set of properties given, whatever their order, spacing and grouping into options; malformed and repeated properties are refused and nothing is printed.",
     ["inputs"], "every list of property texts",
     "Tests hash two lists.",
     [L + "commands/get_variant_hash.py", L + "models/variant.py"],
     [("get_variant_hash", L + "commands/get_variant_hash.py")],
     ["commands.get_variant_hash.get_variant_hash"])
prop("P08", "The plugin commands report exactly the plugins' answers",
     "The plugins found through entry points are all loaded, two with the same namespace being refused. `plugins list-plugins` prints their namespaces, `plugins get-configs` their features with values and flags, restricted to the namespace and feature asked for, and `analyze-platform` the supported features and values, each in the order the plugins give them; a plugin without any valid feature is refused when all valid features are asked for.",
     ["inputs", "configurations"], "every set of installed plugins, their answers and every filter",
     "Tests print one set of plugins.",
     [L + "commands/plugins/get_configs.py", L + "commands/plugins/list_plugins.py", L + "commands/analyze_platform.py", L + "plugins/loader.py"],
     [("get_configs", L + "commands/plugins/get_configs.py"), ("EntryPointPluginLoader", L + "plugins/loader.py")],
     ["commands.plugins", "commands.analyze_platform.analyze_platform"])
prop("E01", "Wheels made, indexed and resolved are chosen as declared",
     "Variant wheels made by make-variant with validation against the provider plugins, indexed by generate-index-json and selected from that index on a target are offered exactly when the target's plugins support the properties they were made with (ahead-of-time providers: always, without a plugin on the target), best first by the project's default priorities, with the null variant last, under the labels they were made with (or their hashes).",
     ["inputs", "configurations", "histories"], "every provider table, set of plugin answers at build time and on the target, and set of wheels",
     "Tests exercise each tool alone, on fixed data.",
     [L + "commands/make_variant.py", L + "commands/generate_index_json.py", L + "api.py", L + "variants_json.py"],
     [("make_variant", L + "commands/make_variant.py"), ("generate_index_json", L + "commands/generate_index_json.py"), ("get_variants_by_priority", L + "api.py")],
     ["api.get_variants_by_priority"])
prop("X01", "Interrupted commands damage nothing but their output",
     "If a file operation of make-variant, unmake-variant, generate-index-json or add-wheel-to-index-json fails, or the command is killed between any two of them, every file there was, other than the destinations, is unchanged, an error is not passed over in silence, and running the command again gives what an uninterrupted run gives.",
     ["crash_points", "fault_sequences"], "every file operation at which a command can fail or be interrupted",
     "Tests never interrupt a command.",
     [L + "commands/make_variant.py", L + "commands/unmake_variant.py", L + "commands/generate_index_json.py", L + "commands/add_wheel_to_index_json.py"],
     [("_make_variant", L + "commands/make_variant.py"), ("_unmake_variant", L + "commands/unmake_variant.py"), ("generate_index_json", L + "commands/generate_index_json.py")],
     ["files after the command"])
prop("X02", "Plugins run isolated from the calling process",
     "Loading and querying plugins happens in a separate interpreter that imports only the plugin and the stand-alone host code, leaves nothing behind on disk, and cannot change the calling process's state other than through its answer.",
     ["programs"], "every plugin program",
     "Tests run a handful of benign plugins.",
     [L + "plugins/loader.py", L + "plugins/_subprocess.py"],
     [("_run_call_subprocess", L + "plugins/loader.py")],
     ["plugins.loader"])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
import sys
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
print(len(P), "properties")
