""" The properties: their statement, and the part of the code each check analyses.

functions: globs over qualified names without the package prefix ('!' excludes). classes: classes whose bases and class
attributes are part of the contract. tables: module constants. rules: names of semantic rules in rules/.
properties.jsonl and MANIFEST.json are generated from this file by dev/gen.py. """

IN, CFG, HIST, PROG = "inputs", "configurations", "histories", "programs"
WC, WB, SC, SE = "workflow.core", "workflow.blocks", "schemas.core", "serialization"

P = []


def prop(id_, title, statement, over, quantifier, why, mechanism, functions, classes=(), tables=(), rules=(),
         decorated=True):
    """ Register a property. """
    P.append(dict(id=id_, title=title, statement=statement, over=over, quantifier=quantifier, why=why,
                  mechanism=mechanism, functions=list(functions), classes=list(classes), tables=list(tables),
                  rules=list(rules), decorated=decorated))


prop("C01", "A workflow block read back from its dictionary has the same configuration",
     "For every kind of block, the dictionary a block is saved to holds every setting given at its construction, its "
     "name, its position and the configuration of its input and output ports (label, default value, lock), and "
     "reading it back builds a block of the same kind with all of them. Reading accepts the older layouts it announces "
     "backward compatibility for. Ports are rebuilt from the current user code, not from the saved document.",
     [IN, CFG], "every block class and every value of its settings and ports",
     "Tests round-trip the handful of workflows of the models folder; a setting lost for one block class, one port side "
     "or one non-default value passes them all.",
     [("block writers and readers", "workflow/blocks.py *.dict_to_object, *.to_dict"),
      ("port configuration", "workflow/core.py Variable.to_dict, Variable.update_from_config, Block.deserialize_variables"),
      ("method and attribute types", "typings.py")],
     [f"{WB}.*.__init__", f"{WB}.*.dict_to_object", f"{WB}.*.to_dict", f"{WB}._method_inputs",
      f"{WB}.output_from_function", f"{WB}.set_block_variable_names_from_dict*", f"{WC}.Block.__init__",
      f"{WC}.Block.to_dict", f"{WC}.Block.deserialize_variables", f"{WC}.Variable.__init__", f"{WC}.Variable.to_dict",
      f"{WC}.Variable.update_from_config", f"{WC}.Variable.has_default_value", "typings.*.to_dict",
      "typings.*.dict_to_object", "typings.*.__init__", f"{SE}.SerializableObject.base_dict",
      f"{SE}.SerializableObject._serializable_dict", "core.DessiaObject.base_dict", "core.type_from_annotation"])

prop("C02", "A workflow, its state and its run are read back as they were saved",
     "A saved workflow is read back with the same blocks, pipes between the same ports, output, free variables with "
     "their locks, steps (label, inputs, grouping, display, documentation, identifiers), description, documentation and "
     "name. A saved state or run is read back with the same workflow, input values, memorized values, output value, "
     "log, execution information, and with exactly the same blocks, pipes and variables marked as evaluated; addresses "
     "of ports written by the saver are the ones the reader resolves.",
     [IN, HIST, CFG], "every workflow and every state reached by any sequence of evaluations",
     "Tests save a few workflows, mostly unlocked, without steps and either fresh or complete; partial states, locked "
     "free variables, several pipes out of one port are not sampled.",
     [("workflow document", "workflow/core.py Workflow.to_dict, Workflow.dict_to_object, initialize_workflow, deserialize_pipes"),
      ("state document", "workflow/core.py WorkflowState.to_dict, WorkflowState.dict_to_object, WorkflowRun.to_dict, ExecutionInfo"),
      ("port addresses", "workflow/core.py Workflow.variable_indices, variable_from_index")],
     [f"{WC}.Workflow.to_dict", f"{WC}.Workflow.dict_to_object", f"{WC}.Workflow.__init__", f"{WC}.Workflow.handle_pipe",
      f"{WC}.Workflow.handle_block", f"{WC}.Workflow._find_name", f"{WC}.Workflow._find_output_block",
      f"{WC}.Workflow.variable_indices", f"{WC}.Workflow.variable_from_index", f"{WC}.Workflow.pipe_variable_indices",
      f"{WC}.Workflow.memorized_pipes", f"{WC}.Workflow.get_upstream_nbv", f"{WC}.initialize_workflow",
      f"{WC}.deserialize_pipes", f"{WC}.Step.__init__", f"{WC}.Step.to_dict", f"{WC}.Step.dict_to_object",
      f"{WC}.Step.add_display_setting", f"{WC}.Pipe.*", f"{WC}.WorkflowState.__init__", f"{WC}.WorkflowState.to_dict",
      f"{WC}.WorkflowState.dict_to_object", f"{WC}.WorkflowRun.__init__", f"{WC}.WorkflowRun.to_dict",
      f"{WC}.ExecutionInfo.__init__", f"{WC}.ExecutionInfo.execution_time", "core.DessiaObject.__init__",
      f"{WC}.ExecutionInfo.to_dict", f"{WC}.ExecutionInfo.dict_to_object",
      f"{WC}.Variable.to_dict", f"{WC}.Variable.update_from_config",
      "displays.DisplaySetting.to_dict", "displays.DisplaySetting.dict_to_object"],
     classes=[f"{WC}.Workflow", f"{WC}.WorkflowState", f"{WC}.WorkflowRun", f"{WC}.ExecutionInfo"])

prop("C03", "Equal objects have equal hashes, and equality follows its declared mode",
     "For every two objects of the library that compare equal, their hashes are equal; an object that does not declare "
     "data equality is equal only to itself. Data equality and data hash ignore exactly the attributes a class excludes "
     "from them, and a hash never depends on something the matching equality ignores.",
     [IN, CFG], "every pair of objects, every class declaration of the equality flags and exclusions",
     "Tests compare a few objects to their own copy; a hash that reads one more attribute than the equality only shows "
     "on equal objects that differ on that attribute.",
     [("data equality and hash", "core.py DessiaObject.__eq__, __hash__, _data_eq, _data_hash; utils/diff.py choose_hash"),
      ("specific equalities", "workflow/core.py, files.py, displays.py, core.py DessiaFilter")],
     ["core.DessiaObject.__hash__", "core.DessiaObject.__eq__", "core.DessiaObject._data_eq", "core.DessiaObject._data_hash",
      "core.DessiaObject._data_eq_dict", f"{SE}.SerializableObject._serializable_dict", "core.DessiaFilter.__hash__", "core.DessiaFilter.__eq__", "utils.diff.choose_hash",
      "utils.diff.sequence_hash", "utils.diff.dict_hash", "files.*.__hash__", "files.*.__eq__",
      "displays.DisplaySetting.__hash__", "displays.DisplaySetting.__eq__", f"{WC}.Step.__hash__", f"{WC}.Step.__eq__",
      f"{WC}.Workflow._data_hash", f"{WC}.Workflow._data_eq", f"{WC}.WorkflowState._data_hash",
      f"{WC}.WorkflowState._data_eq", f"{WC}.Variable.equivalent_hash", f"{WC}.Block.equivalent_hash",
      f"{WB}.*.equivalent_hash"],
     classes=["core.DessiaObject:_eq_is_data_eq,_non_data_eq_attributes,_non_data_hash_attributes",
              "datatools.dataset.Dataset:_non_data_eq_attributes", f"{WC}.Variable:_eq_is_data_eq",
              f"{WC}.Block:_eq_is_data_eq", f"{WC}.Pipe:_eq_is_data_eq", f"{WC}.Workflow:_eq_is_data_eq"])

prop("C04", "Workflows are equal only when blocks, settings, pipes, steps and locks agree",
     "Two workflows compare equal only if their blocks have, in the same order, the same kinds and the same settings, "
     "their ports the same names, types and locks, their pipes connect the same ports and their steps are the same. "
     "Changing any single setting of any single block makes the workflows different; renaming or moving a block does "
     "not.",
     [IN, CFG], "every pair of workflows and every setting of every block class",
     "Tests compare workflows with their copy, which is equal whatever the comparison forgets.",
     [("block equivalence", "workflow/blocks.py *.equivalent"),
      ("workflow equality", "workflow/core.py Workflow._data_eq, Workflow._equivalent_pipes, Variable.equivalent, Step.__eq__")],
     [f"{WB}.*.equivalent", f"{WC}.Block.equivalent", f"{WC}.Variable.equivalent", f"{WC}.Workflow._data_eq",
      f"{WC}.Workflow._equivalent_pipes", f"{WC}.Step.__eq__", "core.DessiaFilter.__eq__", f"{WC}.Workflow.variable_index"])

prop("C05", "A deep copy is complete and shares nothing mutable with its original",
     "Copying an object, workflow, state, variable, file or type yields an object of the same class carrying every "
     "setting of the original; a deep copy shares no mutable part with it, so modifying one never shows in the other. "
     "Inside one copy, an object referenced several times is copied once, and pipes, steps, values and activations of "
     "the copy refer to the copied blocks and variables.",
     [IN, CFG], "every object, every aliasing between its parts",
     "Tests copy an object and compare it with the original, which neither reveals sharing nor dropped attributes that "
     "the comparison ignores.",
     [("generic copy", "utils/copy.py; core.py DessiaObject.copy, __copy__, __deepcopy__"),
      ("workflow copy", "workflow/core.py Workflow.__deepcopy__, copy_step, copy_pipe, copy_nbv_pipe, WorkflowState.__deepcopy__, Variable.copy"),
      ("other copies", "typings.py, files.py, workflow/blocks.py __deepcopy__")],
     ["utils.copy.*", "core.DessiaObject.copy", "core.DessiaObject.__copy__", "core.DessiaObject.__deepcopy__",
      f"{WC}.Workflow.__deepcopy__", f"{WC}.Workflow.copy_*", f"{WC}.WorkflowState.__deepcopy__", f"{WC}.Variable.copy",
      f"{WB}.*.__deepcopy__", "typings.*.__deepcopy__", "files.*.copy", f"{WC}.Workflow.pipe_from_variable_indices",
      f"{WC}.Workflow.pipe_variable_indices", f"{WC}.Workflow.is_variable_nbv", "files.BinaryFile.__init__",
      "files.StringFile.__init__"])

prop("C06", "Reading, describing, comparing or exporting never modifies what it is given",
     "Saving to a dictionary, reading from a dictionary, computing schemas, hashes, equality, differences, checks, "
     "displays, documents, scripts or copies leave the object, the dictionary and the other arguments as they were. The "
     "only exceptions are the stream an export writes to, the memo a caller passes, internal caches, and the evaluation "
     "a workflow state needs before it can show or export a block.",
     [IN, HIST], "every object, document or argument, in any order of calls",
     "Tests look at the result of one call, not at the state of its arguments afterwards.",
     [("effects of the observers", "core.py, serialization.py, schemas/core.py, workflow/core.py, utils/*.py, exports.py")],
     [], rules=["observers"])

prop("C07", "Documents with pointers and without pointers describe the same object",
     "With pointers, an object occurring several times is written once and referenced by a pointer that resolves to it, "
     "and reading gives back one shared object in all its places; without pointers every occurrence is written in full. "
     "In both, each value keeps its place (key or index), numbers become plain numbers, and a value that cannot be "
     "represented is refused with an error instead of being dropped.",
     [IN, CFG], "every object graph, whatever it shares and however deep",
     "Tests serialize a few small graphs; sharing between distinct branches, nested dictionaries of sequences and "
     "pointers to pointers are not sampled.",
     [("writers", "serialization.py serialize*, _serialize_and_set_in_memo, add_references"),
      ("readers", "serialization.py deserialize*, dict_to_object, update_pointers_data, dereference_jsonpointers, deserialization_order")],
     [f"{SE}.*", "!" + f"{SE}.deserialize_with_typ*", "!" + f"{SE}.deserialize_argument", "!" + f"{SE}.is_serializable",
      "!" + f"{SE}.pointers_analysis", "utils.helpers.set_in_object_from_path", "utils.helpers.get_in_object_from_path",
      "utils.helpers.extract_segment_from_object", "utils.types.is_jsonable", "utils.helpers.is_sequence",
      "core.DessiaObject.base_dict", "core.stringify_dict_keys", "measures.Measure.to_dict", "measures.Measure.dict_to_object"],
     tables=["REF_MARKER", "OLD_REF_MARKER"], classes=[f"{SE}.SerializableObject", "core.DessiaObject"])

prop("C08", "A locked input always runs with its locked value",
     "Locking requires a value and keeps it; while an input is locked, no value given by the user to a run, an argument "
     "dictionary or a form replaces it, and it is shown as not editable. Unlocking keeps the value as a default unless "
     "asked otherwise; an unlocked default is used only when no value is given.",
     [IN, HIST], "every sequence of lock, unlock, default and run calls, and every set of given values",
     "Tests lock one input and run once; interactions of locks with given values, defaults and free variables are "
     "histories they do not enumerate.",
     [("locks", "workflow/core.py Variable.lock, unlock, locked"),
      ("given values", "workflow/core.py Workflow.input_values, dict_to_arguments, start_run, WorkflowState.activate_inputs")],
     [f"{WC}.Variable.locked", f"{WC}.Variable.locked@setter", f"{WC}.Variable.lock", f"{WC}.Variable.unlock",
      f"{WC}.Variable.has_default_value", f"{WC}.Variable.__init__", f"{WC}.Workflow.locked_inputs",
      f"{WC}.Workflow.input_values", f"{WC}.Workflow.dict_to_arguments", f"{WC}.Workflow.default_values",
      f"{WC}.Workflow._run_dict", f"{WC}.Workflow.method_dict", f"{WC}.Workflow.run", f"{WC}.Workflow.start_run",
      f"{WC}.Workflow.lock_input", f"{WC}.Workflow.set_input_default", f"{WC}.Workflow.reset_input_default",
      f"{WC}.Workflow.input_schema", f"{WC}.WorkflowState.activate_inputs", f"{WC}.WorkflowRun.dict_to_arguments",
      f"{WC}.WorkflowRun.run_again", f"{WC}.Variable.update_from_config"])

prop("C09", "A block runs once, when all its inputs are available, with its piped values",
     "Evaluating a workflow evaluates a block only when every one of its inputs has a value, gives each input the value "
     "of the pipe or workflow input that feeds it, and marks as evaluated exactly what has been evaluated. A main-branch "
     "block is never evaluated twice, the output value is the one produced at the declared output, progress is the share "
     "of evaluated main-branch blocks, and a run is delivered only when it is complete.",
     [IN, HIST], "every workflow graph, every order of stepping, feeding and resuming",
     "Tests run a few graphs to the end; partial evaluation, resuming, secondary branches and diamond graphs make the "
     "schedule space that they do not cover.",
     [("activation", "workflow/core.py WorkflowState._activate_*, _activable_blocks, _block_activable_by_inputs"),
      ("evaluation", "workflow/core.py WorkflowState._evaluate_block, block_evaluation, continue_run, evaluate_branch, evaluate_next_block")],
     [f"{WC}.WorkflowState._activate_*", f"{WC}.WorkflowState._activable_blocks",
      f"{WC}.WorkflowState._block_activable_by_inputs", f"{WC}.WorkflowState._evaluate_block",
      f"{WC}.WorkflowState.block_evaluation*", f"{WC}.WorkflowState.evaluate_*", f"{WC}.WorkflowState.continue_run",
      f"{WC}.WorkflowState.progress", f"{WC}.WorkflowState.to_workflow_run", f"{WC}.WorkflowState.add_*",
      f"{WC}.WorkflowState.activate_inputs", f"{WC}.WorkflowState.__init__", f"{WC}.Workflow.run",
      f"{WC}.Workflow.start_run", f"{WC}.value_type_check", f"{WC}.Workflow.runtime_blocks",
      f"{WC}.Workflow.is_block_secondary", f"{WC}.Workflow.variable_input_pipe", f"{WC}.Workflow.variable_output_pipes",
      f"{WC}.Workflow.block_inputs_global_indices", f"{WC}.Workflow.input_index"])

prop("C10", "Steps of a workflow always partition its inputs",
     "Whatever sequence of step edits is applied (inserting, moving, reordering, removing, resetting steps; moving inputs "
     "in and out), every input belongs to exactly one step or to the spare inputs, and no input is lost or duplicated. "
     "A reordering that is not a permutation is refused and changes nothing; a step's display follows the inputs it "
     "needs.",
     [HIST, IN], "every sequence of step edits on every workflow",
     "Tests apply one edit at a time on one workflow; the invariant is about every history.",
     [("step edits", "workflow/core.py Workflow.change_input_step, remove_input_from_step, reorder_*, insert_step, remove_step, reset_steps, add_step_display")],
     [f"{WC}.Workflow.change_input*", f"{WC}.Workflow.remove_input_from_step", f"{WC}.Workflow.reorder_*",
      f"{WC}.Workflow.insert_step", f"{WC}.Workflow.rename_step", f"{WC}.Workflow.remove_step*", f"{WC}.Workflow.reset_steps",
      f"{WC}.Workflow.find_input_step", f"{WC}.Workflow.add_step_display", f"{WC}.Workflow.compute_step_display",
      f"{WC}.Workflow.save_step_documentation", f"{WC}.Workflow.rename_input", f"{WC}.Workflow.displayable_*",
      f"{WC}.Step.__init__", f"{WC}.Step.*display_setting", f"{WC}.Workflow.__init__", f"{WC}.Workflow.method_schemas",
      f"{WC}.Workflow.upstream_inputs", f"{WC}.Variable.available_display_settings"])

prop("C11", "The generated script rebuilds the workflow it was generated from",
     "The script generated from a workflow imports every name it uses, declares every block with all its settings, name "
     "and position, every free variable, every pipe between the same ports and the same output, and gives sub-workflows "
     "distinct names. The script of a run also gives every input value.",
     [IN, CFG], "every workflow, block settings and nesting",
     "Tests compare scripts of a few workflows as text; a block class or setting that none of them uses is never "
     "generated.",
     [("script writers", "workflow/blocks.py *._to_script; workflow/core.py Workflow._to_script, to_script, pipes_to_script; workflow/utils.py")],
     [f"{WB}.*._to_script", f"{WB}.*.base_script", f"{WB}.Display.to_script_selector", f"{WB}.Display.*_class_name",
      f"{WC}.*._to_script", f"{WC}.*.to_script", f"{WC}.*.pipes_to_script", f"{WC}.*._get_to_script_elements",
      f"{WC}.Block.base_script", f"{WC}.*.save_script_*", "workflow.utils.*", f"{WC}.WorkflowRun._split_input_values",
      f"{SC}.*.get_import_name*", f"{SE}.SerializableObject.full_classname", "utils.helpers.full_classname"])

prop("C12", "Every announced export exists and writes what its extension and nature say",
     "Every export format an object, physical object, workflow, state or run announces names a method the object has, "
     "with the right extension and text or binary nature, and performing it writes the export to the given stream or "
     "file. Exports declared by decorators are announced with the declared selector, extension and nature; archives hold "
     "every announced part.",
     [CFG, IN], "every class and every declared or block export",
     "Tests export the json and xlsx of a few classes; formats needing optional packages or decorators are not called.",
     [("formats", "core.py _export_formats*, exports.py ExportFormat, decorators.py export_*"),
      ("writers", "core.py to_*_stream, save_export_to_file, to_zip*, workflow/blocks.py Export, Archive")],
     ["core.*._export_formats*", "core.*.save_export_to_file", "core.*.to_xlsx*", "core.*.to_zip*", "core.*.zip_settings",
      "core.*.to_step*", "core.*.to_stl*", "core.*.to_html*", "core.*.to_docx*", "core.*.to_markdown_docx", "exports.ExportFormat.*",
      "core.*.save_babylonjs_to_file", "decorators.export_*", "decorators.set_decorated_function_metadata_export",
      "decorators.get_*", f"{WC}.*._export_formats", f"{WC}.*.export_format_from_selector", f"{WC}.*.export",
      f"{WC}.*.blocks_export_formats", f"{WC}.*.export_blocks", f"{WC}.WorkflowRun.zip_settings", f"{WB}.*._export_format",
      f"{WB}.Export.evaluate", f"{WB}.Archive.evaluate", "files.generate_archive", "core.*.save_to_stream", "core.*.save_to_file",
      "datatools.cluster.ClusteredDataset.to_xlsx_stream"],
     tables=["decorators.EXPORT_DECORATORS"])

prop("C13", "Schemas describe every argument faithfully: type, order, default, documentation",
     "The schema of a class or method lists exactly its editable arguments, in order, each with the type, title, "
     "documentation and default value of the code. Default dictionaries hold the value of each argument that has one, "
     "arguments without default are told apart from arguments defaulting to nothing, and schemas of nested types follow "
     "the same rules.",
     [PROG, IN], "every class, method and annotation a user can write",
     "Tests check the schemas of the demonstration classes; combinations of containers, unions, defaults and "
     "documentation are unbounded.",
     [("schemas", "schemas/core.py Schema, ClassSchema, MethodSchema, SchemaAttribute*, *Property.to_dict, default_value"),
      ("inspection", "schemas/core.py inspect_arguments, split_default_args, parse_docstring")],
     [f"{SC}.*", "!" + f"{SC}.*.check_list", "!" + f"{SC}.*.get_import_name*", "!" + f"{SC}.*.annotation_from_serialized",
      "!" + f"{SC}.*.serialized", "!" + f"{SC}.*.has_no_default", "!" + f"{SC}.*.has_two_args", "!" + f"{SC}.*.has_string_keys",
      "!" + f"{SC}.*.has_simple_values", "!" + f"{SC}.*.has_enough_args", "!" + f"{SC}.*.ellipsis_has*",
      "!" + f"{SC}.*.is_dessia_object_typed", "!" + f"{SC}.*.classes_are_standalone_consistent",
      "!" + f"{SC}.*_from_serialized", "!" + f"{SC}.*.unfold_serialized_annotation", "!" + f"{SC}.*serialize_*",
      "core.DessiaObject.raw_schema", "core.DessiaObject.schema", "core.DessiaObject.*method_schemas",
      "core.DessiaObject.method_dict", f"{WC}.Workflow.input_schema", f"{WC}.Workflow.method_schemas",
      f"{WC}.Workflow.input_annotations", "utils.helpers.prettyname", f"{WC}.*._docstring", f"{WB}.*._docstring",
      f"{WC}.Block.parse_input_doc", f"{WC}.WorkflowState.method_schemas", "core.__getattr__",
      "abstract.CoreDessiaObject.method_schemas"],
     tables=[f"{SC}.SCHEMA_HEADER", f"{SC}.RESERVED_ARGNAMES", f"{SC}.TYPING_EQUIVALENCES",
             f"{SC}.ORIGIN_TO_SCHEMA_CLASS", f"{SC}.EMPTY_PARSED_ATTRIBUTE", f"{SC}.FAILED_ATTRIBUTE_PARSING",
             f"{SC}.FAILED_DOCSTRING_PARSING"])

prop("C14", "A serialized type is read back as the same type",
     "Writing a type annotation to its serialized form and reading it back gives the same type, for every supported kind "
     "of annotation and every nesting of them (an optional type is written as the type it wraps). The kinds known to the writer and the kinds known to the reader are the "
     "same, and an unsupported annotation is refused.",
     [PROG, IN], "every annotation built from the supported kinds",
     "Tests round-trip a list of annotations; nestings are unbounded.",
     [("writers", "schemas/core.py *Property.serialized, serialize_annotation, pretty_annotation"),
      ("readers", "schemas/core.py *.annotation_from_serialized, deserialize_annotation; utils/types.py deserialize_typing")],
     [f"{SC}.*.serialized", f"{SC}.*.annotation_from_serialized", f"{SC}.*_from_serialized",
      f"{SC}.*.unfold_serialized_annotation", f"{SC}.serialize_*", f"{SC}.deserialize_annotation", f"{SC}.get_schema",
      f"{SC}.is_typing", f"{SC}.typing_schema", f"{SC}.custom_class_schema", f"{SC}.extract_args",
      f"{SC}.compute_typing_schema_serialization", f"{SC}.union_is_default_value", f"{SC}.*.args*",
      "utils.types.serialize_typing", "utils.types.deserialize_*", "utils.types.type_from_argname",
      "utils.types.unfold_deep_annotation", "utils.types.is_classname_transform", "utils.helpers.full_classname",
      "utils.helpers.get_python_class_from_class_name", "typings.KeyOf.*", f"{SC}.*.pretty_annotation",
      f"{SC}.pretty_annotation"],
     tables=[f"{SC}.ORIGIN_TO_SCHEMA_CLASS", f"{SC}.SERIALIZED_TO_SCHEMA_CLASS", f"{SC}.TYPES_FROM_STRING",
             "utils.types.TYPES_STRINGS", "utils.types.SEQUENCE_TYPINGS", "utils.types.SERIALIZED_BUILTINS"],
     classes=[])

prop("C15", "Filters keep exactly the objects that satisfy their conditions",
     "A filter keeps an object if and only if the comparison of its attribute with the bound holds, in the original "
     "order and without altering the objects. A list of filters combines its conditions with the declared logical "
     "operator (and, or, xor), index lists and boolean lists denote the same selection, and an unknown operator is "
     "refused.",
     [IN, CFG], "every list of objects, bounds, comparison and logical operators",
     "Tests filter one list with some of the operators.",
     [("filters", "core.py DessiaFilter, FiltersList"), ("users", "datatools/dataset.py Dataset.filtering; workflow/blocks.py Filter")],
     ["core.DessiaFilter.*", "core.FiltersList.*", "datatools.dataset.Dataset.filtering", f"{WB}.Filter.evaluate",
      f"{WB}.Filter.__init__"],
     classes=["core.DessiaFilter", "core.FiltersList"])

prop("C16", "Spreadsheets put each attribute under its header, and reading follows them",
     "A spreadsheet export writes, for each object, each attribute in the column of its header, with sub-objects and "
     "sequences linked to the sheet that holds them, numbers and simple values as such. Reading a workbook instantiates "
     "each object of the announced class from the cells of its row, resolving links, and values of one object never "
     "end up in another.",
     [IN], "every object and workbook",
     "Tests write a few objects and only check that a file comes out, and read a few workbooks.",
     [("writer", "exports.py XLSXWriter"), ("reader", "excel_reader.py")],
     ["exports.XLSXWriter.*", "exports.is_*", "excel_reader.*", "core.DessiaObject.from_xlsx*", "core.DessiaObject.to_xlsx*",
      "utils.types.is_builtin", "utils.types.is_simple"],
     classes=["exports.XLSXWriter"])

prop("C17", "Differences and data equality agree and miss nothing",
     "The difference of two values is empty if and only if they are equal: it reports every differing value, type and "
     "missing key or attribute, in either direction, at the path where it occurs, at any depth. Data equality of "
     "sequences and dictionaries compares lengths, keys and every element.",
     [IN], "every pair of values, however nested",
     "Tests compare a few pairs; asymmetric or nested differences are unbounded.",
     [("difference", "utils/diff.py; core.py DessiaObject._data_diff"), ("data equality", "core.py data_eq, dict_data_eq, sequence_data_eq")],
     ["utils.diff.diff", "utils.diff.dict_diff", "utils.diff.sequence_diff", "utils.diff.D*", "utils.diff.M*",
      "core.data_eq", "core.dict_data_eq", "core.sequence_data_eq", "core.DessiaObject._data_diff",
      "core.DessiaObject._data_eq", "core.DessiaObject._data_eq_dict", "utils.types.isinstance_base_types",
     "utils.helpers.full_classname", "utils.helpers.is_sequence"])

prop("C18", "Checks report every failed condition, at its level, and are never lost",
     "A check list holds the outcome of every check performed on an object or a schema, adding lists keeps all of both, "
     "filtering by level keeps exactly those at or above it, and raising happens if and only if one is. Platform checks "
     "of serialization, copy, displays and schemas report a failure whenever the operation fails or changes the object.",
     [IN, CFG], "every object, check list and level",
     "Tests run the checks on valid objects, where a check that never fails also passes.",
     [("check lists", "checks.py"), ("schema checks", "schemas/core.py *.check_list"), ("object checks", "core.py check_list, is_valid, _check_platform")],
     ["checks.*", f"{SC}.*.check_list", f"{SC}.*.is_valid", f"{SC}.*.has_no_default", f"{SC}.*.has_two_args",
      f"{SC}.*.has_string_keys", f"{SC}.*.has_simple_values", f"{SC}.*.has_enough_args", f"{SC}.*.ellipsis_has*",
      f"{SC}.*.is_dessia_object_typed", f"{SC}.*.classes_are_standalone_consistent", f"{SC}.*.check_prefix",
      f"{SC}.*.has_one_arg", "core.*.check_list", "core.*.is_valid", "core.*._check_platform", "core.*.check_platform",
      f"{SE}.is_serializable", f"{WC}.*.is_valid", "utils.types.is_bson_valid"],
     tables=["checks.LEVEL_TO_INT"],
     classes=["checks.PassedCheck", "checks.CheckWarning", "checks.FailedCheck", "checks.BadType",
              "checks.GeometricInconsistance", "checks.NonSerializable", "checks.NonCopyable", "checks.NonDisplayable",
              "checks.BadStructure"])

prop("C19", "Every announced display resolves, by its selector, to the method that makes it",
     "Every display setting announced by a class, object, workflow or state, from base settings or decorators, names an "
     "existing method with its type, selector, serialization and loading mode; selecting it calls that method with the "
     "announced arguments and yields an object of the announced type. An unknown or ambiguous selector is refused, and "
     "reference paths are composed from the path of the parent.",
     [CFG, IN], "every class, decorated method, display block and selector",
     "Tests ask for the displays of a few classes.",
     [("settings", "core.py display_settings, _display_*; decorators.py; displays.py"), ("workflow displays", "workflow/core.py blocks_display_settings, block_display; workflow/blocks.py Display")],
     ["core.DessiaObject.display_settings", "core.DessiaObject._display*", "core.display_settings_from_selector",
      "displays.*", "!displays.networkx*", "!displays.draw*", "decorators.*_view", "decorators.set_decorated_function_metadata",
      "decorators.get_*", f"{WC}.*.display_settings", f"{WC}.*.blocks_display_settings", f"{WC}.*.block_display",
      f"{WC}.*.display_blocks", f"{WC}.*.block_selector", f"{WC}.*.selector_name", f"{WC}.*.branch_by_selector",
      f"{WC}.*._display_settings_from_selector", f"{WC}.WorkflowRun._get_from_path", f"{WC}.Variable.available_display_settings",
      f"{WB}.Display.*", "!" + f"{WB}.Display.*script*", f"{WB}.MultiPlot.evaluate", f"{WB}.MultiObject.evaluate",
      f"{WB}.*View.plot_data_object", f"{WB}.*View.samples", "typings.ViewType.*", "core.DessiaObject._get_from_path",
      "breakdown.attrmethod_getter", "core.PhysicalObject.babylonjs", "core.*.volmdlr_*", "core.DessiaObject.plot",
      "core.DessiaObject.mpl_plot", "core.DessiaObject.picture"],
     tables=["decorators.DISPLAY_DECORATORS"],
     classes=[f"{WB}.Display", f"{WB}.CadView", f"{WB}.Markdown", f"{WB}.PlotData", f"{WB}.MultiPlot", f"{WB}.MultiObject",
              "typings.CadViewType", "typings.MarkdownType", "typings.PlotDataType"])

prop("C20", "Files and streams keep their content, name, kind and extension",
     "Files read from disk or from a stream have the content, the kind and the extension of their source; a copy is "
     "independent; templates can be read back as a file of their kind. Saving an object to a file or a stream and "
     "loading it back uses the same encoding, adds the missing extension, and never truncates.",
     [IN, CFG], "every file content, name and kind",
     "Tests read and write a few ascii files.",
     [("files", "files.py"), ("persistence", "core.py save_to_file, save_to_stream, from_json*")],
     ["files.*", "core.*.save_to_*", "core.*.load_from_*", "core.*.from_json*", "core.*.to_zip", "core.*.to_xlsx",
      "core.*.to_docx", "utils.types.is_dessia_file", "utils.types.is_file_or_file_sequence", "core.*.save_export_to_file",
      f"{WC}.*.save_script_*", "document_generator.DocxWriter.save_*", "exports.MarkdownWriter.write_to_file",
      "exports.XLSXWriter.save_*"],
     classes=["files.BinaryFile", "files.StringFile", "files.XLSXFile", "files.TextFile", "files.CSVFile",
              "files.MarkdownFile", "files.JsonFile", "files.DocFile", "files.DocxFile", "files.XLSFile",
              "files.XLSMFile"])

prop("C21", "Paths address the same element when written, read and browsed",
     "A path resolves to the attribute, key or index it names, whatever the nesting of objects, sequences and "
     "dictionaries, and an unreachable path is an error rather than another element. Breakdowns list every reachable "
     "object once per path and count them by class.",
     [IN], "every object and path",
     "Tests resolve a few paths.",
     [("paths", "utils/helpers.py extract_segment_from_object, get_in_object_from_path, set_in_object_from_path"), ("breakdown", "breakdown.py")],
     ["utils.helpers.*", "breakdown.*", "core.DessiaObject._get_from_path", f"{WC}.WorkflowRun._get_from_path",
      "core.DessiaObject.performance_analysis", f"{SE}.pointers_analysis"],
     rules=[])

prop("C22", "Blocks compute what they announce, from their own inputs in order",
     "Each block, evaluated, reads the values of its own input ports, in their order, and returns one value per output "
     "port: instantiation and methods are called with each argument under its name, sequences keep the order of ports, "
     "products, unpacking, flattening, sums, subtractions, concatenations, attribute reads and writes and loops over a "
     "sub-workflow give the announced result.",
     [IN, CFG], "every block class, settings and input values",
     "Tests evaluate a few blocks with one set of values.",
     [("block evaluation", "workflow/blocks.py *.evaluate"), ("ports", "workflow/blocks.py *.__init__, _method_inputs, output_from_function")],
     [f"{WB}.*.evaluate", f"{WB}.*.__init__", f"{WC}.*.evaluate", "errors.*", f"{WB}._method_inputs", f"{WB}.output_from_function", "utils.helpers.concatenate",
      "utils.helpers.get_in_object_from_path", f"{WB}.*.package_mix", "typings.MethodType.*", "typings.AttributeType.type_",
      "!" + f"{WB}.*View.*"])

prop("C23", "Workflow graph queries follow the pipes",
     "For any workflow, the upstream variables, blocks, branches and inputs of an element are exactly those reached by "
     "following pipes backwards, disconnected elements those not reached from the output, and the columns of the layout "
     "respect the direction of pipes. Two variables are proposed for connection only if they are on different sides of "
     "different blocks and their types match.",
     [IN], "every workflow graph",
     "Tests query a couple of graphs.",
     [("topology", "workflow/core.py Workflow.upstream_*, *_pipes, _branch_blocks, runtime_blocks, graph"), ("matching", "workflow/core.py match_variables; utils/types.py typematch"), ("layout", "graph.py")],
     [f"{WC}.Workflow._get_graph", f"{WC}.Workflow._graph", f"{WC}.Workflow.runtime_blocks", f"{WC}.Workflow.is_block_secondary",
      f"{WC}.Workflow.has_upstream_block", f"{WC}.Workflow._branch_blocks", f"{WC}.Workflow.secondary_branch_blocks",
      f"{WC}.Workflow.pipe*_between_blocks", f"{WC}.Workflow.block_*", "!" + f"{WC}.Workflow.block_selector",
      f"{WC}.Workflow.variable_*", f"{WC}.Workflow.upstream_*", f"{WC}.Workflow.get_upstream_nbv",
      f"{WC}.Workflow.output_disconnected_elements", f"{WC}.Workflow.input_index", f"{WC}.Workflow.match_variables",
      f"{WC}.Workflow.layout*", f"{WC}.Workflow.graph_columns", f"{WC}.Workflow.nodes", f"{WC}.Workflow.package_mix",
      "graph.*", "!graph.cut_tree_final_branches", "utils.types.typematch", "utils.types.complex_first_type_match",
      "utils.types.heal_type", "utils.types.particular_typematches", f"{WC}.Workflow.*file_inputs", f"{WC}.Variable.is_file_related"])

prop("C24", "Markdown and word documents show every element in order, with its content",
     "Generated markdown and word documents hold every heading, paragraph, table row, list item and picture given to "
     "them, in order and at the right level; tables have one cell per attribute and line, and only values longer than "
     "the announced limits are shortened. Markdown turned into a word document keeps its headings, paragraphs and "
     "tables.",
     [IN], "every object, text and table",
     "Tests build a document and check that it is not empty.",
     [("markdown", "exports.py MarkdownWriter; core.py to_markdown"), ("word", "document_generator.py")],
     ["exports.MarkdownWriter.*", "document_generator.*", "core.*.to_markdown", f"{WC}.*.to_markdown",
      "datatools.dataset.Dataset.to_markdown", "core.*.to_docx*", "core.*.to_markdown_docx"],
     tables=["templates.*"], classes=["exports.MarkdownWriter"])

prop("C25", "Picking, adding and filtering datasets keep rows, labels and features aligned",
     "Picking from a dataset by index, slice, list of indices or list of booleans keeps exactly the chosen objects in "
     "order, together with their own label and matrix row; adding keeps both operands in order; the matrix has one row "
     "per object and one column per common attribute, in that order. Sorting moves each object with its row and label, a "
     "printed dataset shows its own first and last rows, splitting clusters loses no object and names each cluster "
     "after its label, and sampling gives each attribute its own value within its bounds.",
     [IN], "every dataset, key and label list",
     "Tests pick with one key of each sort on one dataset whose cached matrix is already computed.",
     [("dataset", "datatools/dataset.py Dataset"), ("clusters", "datatools/cluster.py ClusteredDataset"), ("sampling", "datatools/sampling.py")],
     ["datatools.dataset.Dataset.*", "!datatools.dataset.Dataset._pareto_frontier_2d", "!datatools.dataset.Dataset.plot_*",
      "!datatools.dataset.Dataset.to_markdown", "datatools.cluster.*", "datatools.sampling.*", "datatools.HeterogeneousList.*",
      "datatools.CategorizedList.*", "core.DessiaObject.to_vector", "core.DessiaObject.vector_features", "core.DessiaFilter.apply",
      "core.DessiaFilter.booleanlist_to_indexlist"],
     classes=["datatools.dataset.Dataset", "datatools.cluster.ClusteredDataset"])

prop("C26", "Arguments given as a dictionary are read with the type the code declares",
     "A dictionary of arguments is turned into call arguments by reading each value with the declared type of the "
     "argument: objects, files, builtins, unions, sequences, tuples and dictionaries of them; a missing mandatory value "
     "or a value of the wrong type is an error, and a default is used only when nothing is given. Type checks accept "
     "exactly the values of the declared type.",
     [IN, PROG], "every method signature and argument dictionary",
     "Tests read arguments of a few methods.",
     [("arguments", "core.py DessiaObject.dict_to_arguments; serialization.py deserialize_argument, deserialize_with_typing"), ("types", "utils/types.py recursive_type, is_*")],
     ["core.DessiaObject.dict_to_arguments", f"{WC}.*.dict_to_arguments", f"{SE}.deserialize_with_typ*",
      f"{SE}.deserialize_argument", "utils.types.*", "!utils.types.typematch", "!utils.types.complex_first_type_match",
      "!utils.types.heal_type", "!utils.types.particular_typematches", f"{WC}.value_type_check", "core.type_from_annotation",
      "core.get_attribute_names", "core.DessiaObject.method_dict", f"{SC}.inspect_arguments", f"{SC}.split_*"])

prop("C27", "Optimizers and generators explore exactly the declared space",
     "An optimizer maps dimensionless vectors to the declared bounds and back, gives every fixed and bounded attribute "
     "to the model it instantiates, and returns the best model it found with its cost. A decision tree generator yields "
     "exactly the valid leaves, visiting each node of the declared tree.",
     [IN, CFG], "every set of bounds, fixed attributes and trees",
     "Tests optimize one model and generate one tree.",
     [("optimization", "optimization.py; core.py Parameter, ParameterSet"), ("generation", "generation.py"), ("measures and algebra", "measures.py, utils/algebra.py, utils/interpolation.py, datatools/metrics.py")],
     ["optimization.*", "generation.*", "core.Parameter*.*", "measures.*", "utils.algebra.*", "utils.interpolation.*",
      "datatools.metrics.*"],
     classes=[f"measures.{c}" for c in ("Measure", "Distance", "Angle", "Torque", "Stress", "Time", "Speed", "RotationSpeed",
                                         "Acceleration", "Mass", "Force", "Work", "Power")])

prop("C28", "Plots and Pareto sets of a dataset show all its points and attributes",
     "The scatter matrix of a dataset has one subplot per ordered pair of common attributes, a histogram on its diagonal; "
     "its parallel plot has each common attribute on exactly one axis; every plotted sample holds the values of its own "
     "row, its own name and the path of its own object. Pareto points are chosen on the costs of their own object, "
     "successive Pareto sheets take objects away from what the previous sheets left, and costs of the wrong length are "
     "refused. A drawn graph has every node and edge of the graph.",
     [IN], "every dataset, list of cost attributes and graph",
     "Tests plot a few datasets and check that no exception is raised; orders of correlations, constant attributes and "
     "ties are not sampled.",
     [("plots", "datatools/dataset.py Dataset.plot_*, _build_multiplot, _to_samples, _parallel_plot_attr, _get_correlations, "
       "_get_attribute_trios, _trios_list_to_parallel_axes"),
      ("pareto", "datatools/dataset.py Dataset.pareto_*, _check_costs, _compute_costs"),
      ("views", "workflow/blocks.py *View; displays.py networkx_to_visjs_data")],
     ["datatools.dataset.Dataset.plot_*", "datatools.dataset.Dataset._build_multiplot", "datatools.dataset.Dataset._histogram_*",
      "datatools.dataset.Dataset._tooltip_attributes", "datatools.dataset.Dataset._object_to_sample",
      "datatools.dataset.Dataset._to_samples", "datatools.dataset.Dataset._point_families",
      "datatools.dataset.Dataset._parallel_plot*", "datatools.dataset.Dataset._get_correlations",
      "datatools.dataset.Dataset._get_attribute_trios", "datatools.dataset.Dataset._trios_*",
      "datatools.dataset.Dataset._new_*", "datatools.dataset.Dataset.*pareto_*", "datatools.dataset.Dataset.*_costs",
      "datatools.dataset.Dataset._plot_dimensionality", "datatools.cluster.ClusteredDataset._point_families",
      "datatools.cluster.ClusteredDataset._object_to_sample", "datatools.cluster.ClusteredDataset.plot_data",
      "datatools.cluster.ClusteredDataset._tooltip*", "displays.networkx_to_visjs_data", "displays.draw_networkx_graph",
      f"{WB}.*View.*", f"{WC}.Workflow.plot_graph"])


# Helpers the functions of a property rely on directly: a change of theirs breaks it as well.
HELPERS = {
    "C01": [f"{WC}.Variable.lock", f"{WC}.Variable.locked", f"{SC}.serialize_annotation", "utils.helpers.full_classname",
            "utils.helpers.get_python_class_from_class_name"],
    "C02": [f"{WC}.Variable.lock", f"{WC}.Variable.locked", "utils.types.recursive_type", f"{WC}.*.activate_inputs",
            f"{WC}.Workflow.branch_by_selector", f"{WC}.Workflow.display_blocks", f"{WC}.Workflow.export_blocks",
            f"{WC}.Workflow.input_values"],
    "C03": ["core.*data_eq", f"{WC}.Workflow._equivalent_pipes", f"{WC}.WorkflowState.progress",
            f"{WC}.Workflow.locked_inputs", f"{WC}.Workflow.variable_indices", f"{WC}.Variable.locked"],
    "C04": [f"{WC}.Variable.locked", f"{WB}.Display.type_"],
    "C05": [f"{WC}.Workflow.variable_indices", f"{WC}.Workflow.variable_from_index", f"{WC}.Variable.lock",
            f"{WC}.Variable.locked", f"{WC}.Workflow.variable_index"],
    "C07": ["utils.types.isinstance_base_types", "graph.explore_tree_from_leaves", f"{SC}.serialize_annotation"],
    "C08": [f"{WC}.WorkflowState.continue_run", f"{WC}.WorkflowState.to_workflow_run", f"{WC}.*._activate_input",
            f"{WC}.Workflow.input_index"],
    "C09": [f"{WC}.Workflow.input_values", f"{WC}.Workflow.upstream_blocks", f"{WC}.Workflow.get_upstream_nbv",
            f"{WC}.Workflow.block_from_variable"],
    "C10": [f"{WC}.Workflow.upstream_branch", f"{WC}.Workflow.input_index", f"{WC}.Workflow.block_from_variable",
            f"{WC}.Workflow.block_upstream_variables"],
    "C11": [f"{WC}.Workflow.variable_indices", f"{WC}.Workflow.is_variable_nbv", f"{WC}.Workflow.variable_input_pipe",
            f"{WC}.Variable.locked", "utils.types.is_file_or_file_sequence"],
    "C12": [f"{WC}.Workflow.block_selector", f"{WC}.WorkflowState.evaluate_branch"],
    "C15": ["*._pick_from_*", "*._indexlist_to_booleanlist", "datatools.*.__getitem__", "datatools.*.filtering",
            "utils.helpers.get_in_object_from_path"],
    "C16": ["utils.helpers.get_python_class_from_class_name"],
    "C17": [f"{SE}.SerializableObject._serializable_dict", "utils.types.is_simple", "utils.helpers.is_sequence",
            f"{SE}.SerializableObject.full_classname"],
    "C18": [f"{SC}.TypingProperty.args", f"{SC}.TypingProperty.origin", f"{SC}.Schema.property_schemas",
            "utils.helpers.is_sequence", "utils.types.is_jsonable"],
    "C19": ["utils.helpers.get_in_object_from_path", f"{WC}.*.activate_inputs", f"{WC}.WorkflowState.evaluate_branch",
            f"{WC}.Workflow.variable_input_pipe", f"{WC}.Workflow.secondary_branch_blocks"],
    "C21": [f"{SE}.SerializableObject._serializable_dict"],
    "C22": ["utils.helpers.extract_segment_from_object", "files.generate_archive", "*._display_settings_from_selector",
            "breakdown.attrmethod_getter", "core.DessiaFilter.apply", "core.type_from_annotation",
            f"{SC}.split_argspecs", "typings.*.get_method", f"{WB}.*.plot_data_object", "core.ParameterSet.parameters"],
    "C23": [f"{WC}.Variable.locked", f"{SC}.is_typing", f"{SC}.union_is_default_value"],
    "C24": [f"{WC}.WorkflowState.progress", "datatools.dataset.Dataset.matrix",
            "datatools.dataset.Dataset.common_attributes"],
    "C25": ["core.DessiaFilter.get_booleans_index", "core.FiltersList.get_booleans_index", "core.get_attribute_names"],
    "C26": ["utils.helpers.get_python_class_from_class_name", "utils.helpers.full_classname", "utils.helpers.is_sequence",
            f"{SC}.is_typing", "typings.MethodType.output_type", f"{SC}.*.default_dict"],
    "C28": [f"datatools.dataset.Dataset.{n}" for n in ("common_attributes", "matrix", "attribute_values", "sub_matrix",
                                                      "singular_values")] +
           ["datatools.cluster.ClusteredDataset.n_clusters", "decorators.plot_data_view"],
}
for _p in P:
    _p["functions"] += [x for x in HELPERS.get(_p["id"], ()) if x not in _p["functions"]]

NA = [
    ("N01", "Statistics, distances and clusterings are numerically right",
     "Means, variances, covariances, distances and clusters computed on a dataset equal their mathematical definition "
     "within rounding.", [IN], "every dataset", "Numerical results over all inputs; tests sample a few.",
     ["datatools/dataset.py", "datatools/cluster.py", "datatools/metrics.py"],
     "The truth is in floating point values computed by numpy, scipy and scikit-learn; no static argument over this "
     "source bounds them. The structural part (which function receives which data, in which order) is decided under "
     "C25 and C27."),
    ("N02", "Optimizations reach the optimum",
     "The model returned by an optimization has the lowest cost of the explored space, within tolerance.", [IN],
     "every objective and bounds", "Convergence depends on run-time values.", ["optimization.py"],
     "Convergence of CMA-ES and gradient methods depends on run-time values of user objectives; only the selection and "
     "mapping of values is in the shape of the code (C27)."),
    ("N03", "Any user object equals itself after a save and load",
     "For every object of every class deriving from the base class, reading its saved dictionary gives an equal object.",
     [IN, PROG], "every user class and value", "User classes are unbounded.", ["serialization.py", "core.py"],
     "It quantifies over constructors and attributes of user classes that are not in this source (a constructor may drop "
     "or transform its arguments). The parts that are in this source, writers and readers agreeing on keys, places, "
     "pointers and tables, are decided under C01, C02, C07 and C14."),
    ("N04", "Reading an untrusted document terminates in bounded memory",
     "Reading any document, however malformed or cyclic, ends with an object or an error in bounded time and memory.",
     [IN], "every document", "Resource bounds depend on run-time sizes.", ["serialization.py", "excel_reader.py"],
     "Termination depends on the sizes and cycles of run-time documents and on networkx; no sound static bound is in "
     "reach for Python sources of this kind."),
    ("N05", "Concurrent runs of one workflow do not interfere",
     "Several runs of the same workflow object in threads give the results they give alone.", ["schedules"],
     "every interleaving", "Interleavings are not sampled by tests.", ["workflow/core.py"],
     "The library promises no thread safety (blocks, variables and caches are shared, unlocked mutable objects) and runs "
     "user code inside blocks; there is no locking discipline to analyse."),
]
