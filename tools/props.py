P('M01', 'A failed run leaves no output behind',
  'If the input cannot be loaded, parsed or cleaned (in the first pass or in any later pass of --multipass), the option values are rejected, or the cleaned data is bigger than the original and --allow-bigger-file is absent, then nothing is written to standard output and no file is created, truncated or filled (except the copy requested by --copy-on-error). Every such failure of loading, parsing, cleaning or writing produces a message on standard error. A run without a failure ends with the result written to the chosen destination.',
  ['inputs', 'configurations', 'fault_sequences'], 'every failing operation, in every pass, for each source/destination combination',
  'No test runs the binary; unit tests only call the option generators and single tasks.',
  ['src/main.rs', 'src/cleaner.rs'], [('main loop and error branches', 'src/main.rs main'), ('save_file/write_stdout', 'src/cleaner.rs')],
  AI + ' of main: fault injected at the library call, output calls must be unreachable, a report must be inevitable',
  'Decides, over all paths of main with its helpers inlined, which calls can still run after a failure of each fallible operation. Sizes are covered through a finite set of boundary pairs.')
P('M02', '--copy-on-error copies the original exactly when it should',
  'When parsing or cleaning fails in any pass, or the cleaned data is bigger and that is not allowed, and --copy-on-error is present and both an input file and an output file were given and they are different files, the input file is copied to the output path before the process ends. In every other situation (no failure, flag absent, stdin or stdout involved, both paths naming the same file) no copy is made.',
  ['inputs', 'configurations', 'fault_sequences'], 'every failure kind and pass, every source/destination combination, equal / differently spelled / different paths',
  'The tests never run the binary with a failing file.',
  ['src/main.rs'], [('on_err closure', 'src/main.rs main')],
  AI + ' of main with a "copied" ghost: must-pass-through and unreachability of fs::copy', 'File identity is judged by textual equality and by equality of the canonicalised paths.')
P('M03', 'A result bigger than the original is refused, a smaller or equal one is saved',
  'Without --allow-bigger-file a result with more bytes than the original input is refused and any other result is saved; with --allow-bigger-file it is always saved. The optional trailing newline is not part of that comparison and is written exactly when the append-newline option is on.',
  ['inputs', 'configurations'], 'all relations between the two sizes (boundary pairs at several magnitudes), both flags, single and multi pass',
  'No test covers the comparison.', ['src/main.rs'], [('size check', 'src/main.rs main'), ('newline', 'src/main.rs main')],
  AI + ' of main with sizes as constants at the boundaries', 'Orderings are decided at boundary pairs (N, N-1 / N / N+1 / far) for several N; a threshold hidden between these is out of reach.')
P('M04', 'Only the result reaches the destination; cleaning does no I/O',
  'Parsing, cleaning and serialising a document touches no file, stream, clock, environment or process state. Standard output receives only the result and only when it is the chosen destination; the only file ever created or filled is the chosen output file; logging goes to standard error. With --quiet a successful run prints nothing to standard error, without it the final size message is printed.',
  ['inputs', 'configurations'], 'every function reachable from the library entry points; every path of main', 'Tests do not observe streams or files.',
  ['src/main.rs', 'src/cleaner.rs', 'src/cli.rs', 'src/task'], [('who may call I/O', 'src/cleaner.rs, src/main.rs'), ('quiet', 'src/main.rs')],
  'who-may-call query over the resolved call graph plus ' + AI, 'Effects are judged by resolved callee; the log facade is routed by the dispatch built in main.')
P('M05', 'Each pass works on the right bytes',
  'The first pass parses the original input and every later pass parses the complete output of the pass before it; each pass cleans the document it has just parsed and serialises that cleaned document into an empty buffer, with the options given on the command line. What is saved is the output of the last pass. Without --multipass there is one pass; with it, passes repeat until two consecutive passes give the same size, and no longer.',
  ['inputs', 'configurations', 'histories'], 'any number of passes, every source/destination combination', 'No test runs more than one pass.',
  ['src/main.rs', 'src/cleaner.rs'], [('main loop', 'src/main.rs main'), ('write_buffer', 'src/cleaner.rs')],
  AI + ' of the main loop with typestate ghosts (parsed, cleaned, written) and provenance terms for the buffer', 'Passes after the second are joined into one abstract pass.')
P('M10', 'Every option controls exactly its documented setting',
  'For each documented option and each accepted spelling of its value, the parse, write and cleaning settings derived from the command line have the documented value for that option, and no other setting changes when only that option changes. Settings without an option are always the ones cleaning relies on: parsing skips no invalid attribute, CSS or paint fallback and no px unit is kept, and hidden attributes are not written.',
  ['configurations'], 'all 44 flags with 6 spellings, 4 precisions with 12 values, 3 choices with all values, against a baseline',
  'The tests look at about ten of the sixty settings.', ['src/cli.rs', 'src/options.rs'], [('KEYS table and Key enum', 'src/cli.rs'), ('gen_*_options', 'src/cli.rs')],
  AI + ' of the option generators over every option name and value (constant propagation through the key table)', 'The finite space of single-option command lines is enumerated; interactions of two options are covered only where the code branches on them.')
P('M11', '--no-defaults switches off every flag that was not given',
  'With --no-defaults every setting controlled by a <FLAG> option is off unless that option was given on the command line, and a flag that was given has the given value. Options that are not flags (precisions, separators, indent, style joining) keep their given or default value.',
  ['configurations'], 'every flag, given or not, every default', 'The tests check eleven of the settings.',
  ['src/cli.rs'], [('Flags::resolve', 'src/cli.rs'), ('initial option values', 'src/cli.rs gen_*_options')],
  AI + ' of the option generators under occurrence assumptions', 'Enumerates all flags; combinations are covered one given flag at a time.')
P('M12', 'The registered command line is the documented one',
  'Every option in the help text is registered under that name with the documented default, and every registered option is documented. Flags accept exactly true, false, yes, no, y, n; precisions exactly the integers 1 to 12; choices exactly the documented values; file arguments only names ending in .svg or .SVG, or "-". The input file is required; the output file is required unless --stdout is given.',
  ['configurations', 'inputs'], 'all options and all argument strings (validators decided for every string / every u8)', 'Tests use a handful of command lines.',
  ['src/cli.rs', 'data/help.txt'], [('prepare_app', 'src/cli.rs'), ('validators', 'src/cli.rs is_flag/is_precision/is_svg')],
  AI + ' of the clap registration and the validators, cross-checked with the help text', 'clap itself is trusted to apply the registered validators and defaults.')
P('M13', 'Dependent path options are rejected without the option they need',
  'A command line that switches on join-arcto-flags without trim-paths, or remove-unused-segments, convert-segments or apply-transform-to-paths without paths-to-relative, is rejected with a message before the input is read; every other combination of these options is accepted.',
  ['configurations'], 'all 64 combinations of the six options in all spellings', 'Four of the combinations are tested, on the check alone.',
  ['src/cli.rs', 'src/main.rs'], [('check_values', 'src/cli.rs'), ('early return', 'src/main.rs')],
  AI + ' over the finite option space', 'Exhaustive over the six options.')
P('M14', 'Input and output are taken from the documented places',
  'Data is read from standard input when the input is "-" together with --stdout or when the output argument is "-", otherwise from the named input file; the result goes to standard output with --stdout, to the first file argument when the second is "-", otherwise to the named output file. The program opens exactly that source and creates exactly that destination.',
  ['configurations'], 'all argument shapes accepted by the command line', 'Four shapes are tested, on the helper functions alone.',
  ['src/cli.rs', 'src/main.rs'], [('input/output', 'src/cli.rs'), ('load/save', 'src/main.rs')],
  AI + ' of the selection functions and of main', 'Paths are opaque terms.')
OUT = 'abstract interpretation of the task\'s MIR over symbolic documents: the set of final (tree, attribute) outcomes over all paths is compared with the specified one'
P('M20', 'Each cleaning task runs exactly when its option is on',
  'A cleaning task that is controlled by an option runs on every successful run with that option on and, with the option off, is not run or changes nothing. No other task exists that could run, and the options reach the tasks exactly as they were given.',
  ['configurations'], 'every option on or off, with all other options unknown', 'The tests call the tasks directly; clean_doc is not called by them.',
  ['src/cleaner.rs'], [('clean_doc', 'src/cleaner.rs')], AI + ' of clean_doc with the tasks as opaque steps', 'Each option is decided with every other option unknown, so all combinations are covered.')
P('M21', 'Documents that cannot be cleaned safely are rejected, all others accepted',
  'A document with scripting, animation, event attributes, non-empty requiredFeatures or systemLanguage, or an unresolved xlink:href outside a, image, font-face-uri and feImage is rejected, wherever the construct is and whatever else the document contains; so is one in which the chain of xlink:href of a gradient leads back to an element of the chain. A document without these constructs is accepted, and the check changes nothing.',
  ['inputs'], 'every element kind, every attribute, in several neighbourhoods; gradient chains up to length five', 'Seven constructs are tested, one each in a one-element document.',
  ['src/task/preclean_checks.rs'], [('preclean_checks', 'src/task/preclean_checks.rs')], AI + ' of the check over symbolic documents', 'Elements are enumerated kind by kind, attributes by id; values stay symbolic. Gradient chains are finite instances.')
P('M22', 'A task that fails stops the cleaning and reports its error',
  'When any cleaning task fails, cleaning ends with that error and no further task runs; when none fails cleaning succeeds. An error raised inside a helper of a task is never dropped.',
  ['fault_sequences', 'configurations'], 'every fallible task, every error edge between local functions', 'No test makes a task fail inside clean_doc.',
  ['src/cleaner.rs', 'src/task'], [('clean_doc', 'src/cleaner.rs'), ('Result returning helpers', 'src/task')], 'fault injection in the ' + AI + ' of clean_doc and of every caller of a Result-returning local function', 'Error values are opaque terms.')
P('M23', 'Cleaning tasks run in an order that respects their dependencies',
  'The document is prepared (references and inheritance resolved, attributes fixed, defs grouped) before any optional task other than the independent ones, numbers are rounded before anything that compares them, elements are merged and removed before attributes, attributes are removed before they are grouped into common parents, and transforms are applied before gradients are compared. Shapes are converted before paths are processed, invisible elements are removed after that, defs are ungrouped after every task that looks for definitions, and style joining comes last.',
  ['configurations'], 'all pairs of dependent tasks with all options on', 'The tests run single tasks.', ['src/cleaner.rs'], [('clean_doc', 'src/cleaner.rs')],
  AI + ' of clean_doc with a step counter', 'Decides the order in the one fully enabled configuration; M20 decides what runs in the others.')
P('M24', 'The mandatory steps run in every configuration, the safety check first',
  'Whatever the options are, a successful cleaning has run every mandatory step (safety check, attribute resolution and fixing, defs grouping, number rounding, empty defs, namespace, default transform, style joining) on the document it was given. The safety check runs before any other step.',
  ['configurations'], 'all option sets', 'clean_doc is not tested.', ['src/cleaner.rs'], [('clean_doc', 'src/cleaner.rs')], AI + ' of clean_doc: must-pass-through', 'All options unknown.')
P('M30', 'Descriptive elements are removed only on request and only they',
  'Removing title, desc or metadata elements removes every element of that kind with its content, wherever it is, and changes or removes nothing else. No other kind of element is removed this way.',
  ['inputs'], 'every element kind at every position of a symbolic document', 'One test per kind with two elements.', ['src/task/rm_elems.rs', 'src/cleaner.rs'], [('remove_element', 'src/task/rm_elems.rs')], OUT, 'Documents are symbolic neighbourhoods; larger trees are covered by the per-element reasoning of the loop.')
P('M31', 'Unused definitions are removed without losing what they contain',
  'A child of defs that is referenced, or is a font or font-face, is kept with its children, and nothing outside defs is removed. An unreferenced child without children is removed; when an unreferenced child has children they are moved to defs and it is never removed together with them.',
  ['inputs'], 'every element kind, used or not, with and without children', 'Four small documents are tested.', ['src/task/rm_unused_defs.rs'], [('remove_unused_defs', 'src/task/rm_unused_defs.rs')], OUT, 'Symbolic neighbourhoods.')
P('M32', 'Identifiers stay unique and referenced identifiers stay',
  'Removing unreferenced ids clears exactly the ids nothing links to. Trimming gives each element that has an id a new one, no two elements the same, starting with a letter; elements without an id get none and nothing else changes.',
  ['inputs'], 'all elements; the id sequence for every length up to five digits and every class of digits', 'The generator is tested for a few hundred values, uniqueness not at all.', ['src/task/rm_unref_ids.rs', 'src/task/trim_ids.rs'], [('remove_unreferenced_ids', 'src/task/rm_unref_ids.rs'), ('gen_id', 'src/task/trim_ids.rs')],
  AI + ' of the tasks and a monotonicity argument for the generator', 'Ids longer than five digits (more than 700 million elements) are not covered.')
P('M33', 'Grouping and ungrouping of defs moves definitions without changing them',
  'Unless inherited values forbid it, every never-rendered element ends up in one defs element that is the first child of the svg element, no other element is moved or removed, and a clipPath, marker, mask or pattern that loses a parent passes on to its children the inheritable attributes they would have inherited from it and its ancestors below the svg element, the nearest value winning (a filter passes on color-interpolation-filters; the content of a symbol inherits from the use and gets nothing); if such a value is relative to a parent, the definitions stay where they are. Ungrouping dissolves a defs element only if it has no inheritable attribute and all its children are never-rendered elements, keeping their order; an empty defs is removed only if it has no children.',
  ['inputs'], 'every element kind inside and outside defs, nested defs, every inheritable attribute', 'A dozen small documents are tested.', ['src/task/group_defs.rs', 'src/task/ungroup_defs.rs', 'src/task/final_fixes.rs'], [('group_defs', 'src/task/group_defs.rs'), ('ungroup_defs', 'src/task/ungroup_defs.rs'), ('remove_empty_defs', 'src/task')], OUT, 'Trees up to four levels.')
P('M34', 'Attributes of the root and default transforms are dropped only when unneeded',
  'The xlink namespace stays declared whenever some element has an xlink attribute or is linked to, and is removed only otherwise and when asked. The version task removes version and baseProfile of the svg element only; a transform is removed exactly when it is the identity.',
  ['inputs', 'configurations'], 'every element kind, option on and off', 'Few documents are tested.', ['src/task/final_fixes.rs', 'src/task/rm_version.rs', 'src/task/rm_default_transform.rs'], [('fix_xmlns_attribute', 'src/task'), ('remove_version', 'src/task/rm_version.rs'), ('remove_default_transform', 'src/task/rm_default_transform.rs')], OUT, 'Symbolic neighbourhoods.')
P('M40', 'A use element is replaced by its target only when nothing is lost',
  'A use is replaced by its target only if the target is a direct child of defs, is used by nothing else, is no symbol, svg or use, is not an ancestor of the use, has no attribute in common with the use, and neither width, height nor a position with a unit is set on the use, and clip-path, mask and filter of the use would not end up in another coordinate system or order; otherwise the use, its link and everything else stay unchanged. The replaced target receives every attribute of the use, and x and y of the use become a translation appended to its transform. The document draws the same.',
  ['inputs'], 'every target kind, every attribute class on use and target, every unit, every number of links', 'Twelve documents are tested.', ['src/task/resolve_use.rs'], [('resolve_use', 'src/task/resolve_use.rs')], OUT, 'One or two uses and one target, with symbolic and with concrete attribute values.')
P('M41', 'inherit and currentColor are replaced by the value they stand for',
  'An attribute with the value inherit gets the value of the nearest ancestor that has the attribute, or of its parent if the attribute is not inheritable. One with currentColor gets the color of the element or else of its nearest ancestor with a color. Ancestors are resolved first. Where the value depends on more than that - it is relative to the parent (em, ex, percent, bolder), or the element or an ancestor is used by a use element that supplies another value - an inheritable attribute with inherit is removed instead, which has the same effect, and anything else fails. If there is no such value cleaning fails; no other attribute is changed.',
  ['inputs'], 'every element kind, 15 attributes, all placements on three levels', 'Ten documents are tested.', ['src/task/resolve_inherit.rs'], [('resolve_inherit', 'src/task/resolve_inherit.rs')], OUT, 'Three levels of nesting.')
P('M42', 'Gradient attributes are resolved along the reference chain',
  'Every linear and radial gradient gets each missing attribute (units, spread method, transform-free coordinates) from the nearest gradient of its reference chain that has it, else the SVG default; a focal point set nowhere in the chain becomes the own center. A resolved value is marked as not to be written, and attributes that are present and other elements are not changed.',
  ['inputs'], 'every attribute, every placement on chains up to three gradients, both gradient kinds, every other element kind', 'A dozen small documents are tested.', ['src/task/resolve_gradients.rs'], [('resolve_linear_gradient_attributes', 'src/task/resolve_gradients.rs'), ('resolve_radial_gradient_attributes', 'src/task/resolve_gradients.rs')], OUT, 'Chains up to three gradients of one kind.')
P('M43', 'Invalid attribute values are repaired to what a renderer would use',
  'Each stop of a gradient ends up with a number between 0 and 1 as offset, offsets ascending, a percentage divided by 100, a missing first offset 0 and a missing later one an error; a missing color is black and a missing opacity 1. A rect gets width and height 0 where they are missing or negative and loses a negative radius, a points list loses an odd last value, an empty one is removed, and the marker shorthand is dropped; nothing else is changed.',
  ['inputs'], 'all offsets kinds and units in every position, every element kind, every attribute concerned', 'About twenty documents are tested.', ['src/task/resolve_gradients.rs', 'src/task/fix_attrs.rs'], [('resolve_stop_attributes', 'src/task/resolve_gradients.rs'), ('fix_invalid_attributes', 'src/task/fix_attrs.rs')], OUT, 'Up to four stops with representative numbers of every class.')
P('M44', 'A gradient absorbs the one it references only when nothing else needs it',
  'A gradient is merged with the gradient it references exactly when nothing else references that one, it has no reference itself, and, if the two are of different kinds, no gradient references the first: it keeps its own stops or else takes over the others, values it took over are written from then on, and the referenced gradient disappears. Otherwise neither gradient is changed.',
  ['inputs'], 'all kinds of referenced elements, stops, users, document orders, chains of three, every gradient attribute', 'Eight documents are tested.', ['src/task/merge_gradients.rs'], [('merge_gradients', 'src/task/merge_gradients.rs')], OUT, 'Up to three gradients.')
P('M45', 'Only equal gradients are merged and every reference follows',
  'Two gradients of one kind become one only if units, coordinates, spread method, transform, reference and stops are equal; every reference to the second then points to the first, and the second is removed. No gradient ends up referencing itself, and a gradient without id never replaces one that is used.',
  ['inputs'], 'every attribute different or missing on either side, stops different in every field, all users', 'Ten documents are tested.', ['src/task/rm_dupl_defs'], [('remove_dupl_linear_gradients', 'src/task/rm_dupl_defs/linear_gradient.rs'), ('remove_dupl_radial_gradients', 'src/task/rm_dupl_defs/radial_gradient.rs')], OUT, 'Up to three gradients.')
P('M46', 'Only equal blur filters are merged and every reference follows',
  'Two filters that consist of one feGaussianBlur become one only if all attributes of filter and blur that matter are equal by presence and value; every reference to the second then points to the first, and the second is removed. Filters with other content, with a reference or with a referenced blur are kept.',
  ['inputs'], 'every attribute, every element kind as content, up to three filters', 'Five documents are tested.', ['src/task/rm_dupl_defs'], [('remove_dupl_fe_gaussian_blur', 'src/task/rm_dupl_defs/fe_gaussian_blur.rs')], OUT, 'Up to three filters.')
P('M47', 'Shared gradient stops move to one new gradient that all reference',
  'Gradients with equal stops and without a reference share one new linear gradient that has exactly these stops and an id no element has; each of them references it and keeps its own written attributes. Gradients with different stops, without stops or with a reference are not changed.',
  ['inputs'], 'up to four gradients, stop lists different in every field, references, ids in use', 'Two documents are tested.', ['src/task/regroup_gradient_stops.rs'], [('regroup_gradient_stops', 'src/task/regroup_gradient_stops.rs')], OUT, 'Up to four gradients.')
P('M48', 'A stop is removed only if it repeats the stop before it',
  'A stop of a gradient is removed exactly if it has the offset, color and opacity of the stop directly before it; other children of a gradient, and stops elsewhere, are never removed. No attribute changes.',
  ['inputs'], 'all combinations of two stops, sequences up to five stops, every element kind between them or around them', 'Four documents are tested.', ['src/task/rm_invalid_stops.rs'], [('remove_invalid_stops', 'src/task/rm_invalid_stops.rs')], OUT, 'Up to five stops.')
P('M49', 'Moving gradientUnits between gradients keeps the effective units',
  'After gradient attributes are removed, every gradient that something is painted with has the effective gradientUnits it had before: its own written value, or the one of the gradient it references, or objectBoundingBox. The task returns for every document whose references have no cycle and changes nothing but gradientUnits.',
  ['inputs'], 'all reference forests of three gradients, all unit values, painted subsets, gradients painting gradients', 'Six documents are tested.', ['src/task/rm_gradient_attrs.rs'], [('remove_gradient_attributes', 'src/task/rm_gradient_attrs.rs')], OUT, 'Up to four gradients.')
P('M50', 'Only invisible elements are removed as invisible',
  'remove-invisible-elements removes an element only if it draws nothing: it has display:none (and nothing references it or its content), a path without segments, a rect with zero width or height, a use without target, a clipPath child that can not clip, or an element clipped or filtered by an empty clipPath or filter that is rendered nowhere else. Nothing that is referenced is removed with it, and everything else stays where it was, unchanged.',
  ['inputs'], 'all elements as child and parent, all reasons, references to the element and its content', 'Tests sample some thirty documents.', ['src/task/rm_invisible_elems.rs'], [('remove_invisible_elements', 'src/task/rm_invisible_elems.rs')], OUT, 'Small documents, one reason at a time.')
P('M51', 'Gradients that paint one color are replaced by that color',
  'What is painted with a gradient that has no stops becomes none, and what is painted with a gradient of one stop becomes the color of that stop with its opacity multiplied into the fill or stroke opacity in effect. Gradients that reference another gradient or have more stops, and everything painted with them, stay as they are; no reference to a removed gradient remains.',
  ['inputs'], 'fill and stroke, own and inherited opacities, number of stops, references', 'Four documents are tested.', ['src/task/rm_invisible_elems.rs'], [('remove_invisible_elements', 'src/task/rm_invisible_elems.rs')], OUT, 'Small documents.')
P('M52', 'Ungrouping leaves what is drawn unchanged',
  'Removing a group in favor of its children preserves what the document draws: order, inherited properties, coordinate systems, group opacity, clipping, masking, filters, links, switch selection and what every use instance draws.',
  ['inputs'], 'group attributes x children x contexts, groups in groups, with and without transform options', 'Some twenty documents are tested.', ['src/task/ungroup_groups.rs'], [('ungroup_groups', 'src/task/ungroup_groups.rs')], OUT, 'Compared by an SVG rendering model (lib/render.py): list of drawn leaves with effective properties, coordinate systems and effects. Groups with only title or desc children, single children of a switch and groups in text are not covered.')
P('M53', 'Moving the transform of a group to its children leaves what is drawn unchanged',
  'prepare_transforms, which moves the transform of a group to its children so that it can be applied to their coordinates, preserves what the document draws, including what use instances draw. It changes nothing if transforms are applied neither to shapes nor to paths.',
  ['inputs'], 'group attributes x children x contexts x option sets', 'A dozen documents are tested.', ['src/task/apply_transforms/preproc.rs'], [('prepare_transforms', 'src/task/apply_transforms/preproc.rs')], OUT, 'Compared by the rendering model of M52.')
P('M54', 'Applying transforms to shapes leaves what is drawn unchanged',
  'Applying the transform of a rect, circle, ellipse or line to its coordinates preserves what the document draws: geometry, own and inherited stroke widths, dashes and dash offsets, gradients, patterns, markers, clipping, masking, filters and what use instances draw. A transform is applied only if the coordinates can express it: no skew, rotation or non-uniform scale and no coordinates with units.',
  ['inputs'], 'shapes x transforms x own and inherited strokes, references and uses', 'Ten documents are tested.', ['src/task/apply_transforms/shapes.rs', 'src/task/utils.rs'], [('apply_transform_to_shapes', 'src/task/apply_transforms/shapes.rs'), ('recalc_stroke', 'src/task/utils.rs')], OUT, 'Compared by the rendering model of M52, with coordinates folded on constants.')
P('M55', 'Processing paths leaves what is drawn unchanged',
  'Rewriting path data (to relative coordinates, into shorter segments, without segments that draw nothing, with the transform applied) preserves the subpaths a path draws: their lines, curves and arcs, whether they are closed, and all vertices when a marker is set on the path, an ancestor or a use that instances it. Stroke widths and dashes follow an applied transform, which is not applied to what paint servers, clipping, masks, filters, markers or use refer to. Dots (subpaths without length), loops drawn twice and the joint of a subpath that returns to its start with a line are not judged.',
  ['inputs'], 'sequences of segments x switches x transforms x styles and references', 'About fifty paths are tested.', ['src/task/paths/mod.rs', 'src/task/paths/conv_segments.rs', 'src/task/paths/rm_unused.rs', 'src/task/paths/apply_transform.rs'], [('process_paths', 'src/task/paths/mod.rs'), ('remove_unused_segments', 'src/task/paths/rm_unused.rs'), ('convert_segments', 'src/task/paths/conv_segments.rs')], OUT, 'The resulting segments, folded on constants, are turned into outlines by an oracle written from SVG 1.1 chapter 8 and compared with those of the original path in device coordinates.')
P('M56', 'Converting shapes to paths leaves what is drawn unchanged',
  'Lines, rects, polylines and polygons that become paths draw the same outline with the same style, fill, markers, clipping and references, whatever units their coordinates use. A shape that cannot be expressed as a path without a change (rounded corners, percentages, markers on a rect, missing coordinates that disable it) stays a shape.',
  ['inputs'], 'kinds of shapes x coordinates and units x styles, markers and references', 'A dozen shapes are tested.', ['src/task/conv_shapes.rs', 'src/task/utils.rs'], [('convert_shapes_to_paths', 'src/task/conv_shapes.rs')], OUT, 'The path data of the converted shape, folded on constants, is turned into an outline and compared with the outline SVG 1.1 chapter 9 gives for the shape.')
P('M57', 'Applying gradient transforms leaves the painted colors unchanged',
  'Applying the gradientTransform of a gradient to its coordinates preserves the colors every element painted with it gets, and where: by itself, and through all gradients that reference it. Coordinates and radii are only rewritten where the result is exact; otherwise the transform is kept. A transform that moves or evenly scales a gradient that nothing else depends on is applied.',
  ['inputs'], 'coordinates and units x transforms x gradient units x reference chains of up to three gradients', 'Some ten gradients are tested.', ['src/task/apply_transforms/gradients.rs', 'src/task/apply_transforms/mod.rs'], [('apply_transform_to_gradients', 'src/task/apply_transforms/gradients.rs')], OUT, 'Compares the effective gradient (kind, spread, units, coordinates mapped by the transform, stops) of each painted element before and after, over 2704 gradient documents.')
P('M58', 'All gradient tasks together leave the painted colors unchanged',
  'Running the gradient tasks one after another, in the order the cleaner runs them, on documents whose gradients reference, repeat or transform each other, leaves every element painted with a gradient the same colors in the same places. Equal is decided on the effective color function of each painted gradient: kind, units, spread, geometry with its transform, and stops.',
  ['inputs'], 'up to three gradients x kinds x units, transforms and coordinates x references x stops x which are painted', 'Each task is tested alone.', ['src/task/resolve_gradients.rs', 'src/task/merge_gradients.rs', 'src/task/rm_dupl_defs', 'src/task/regroup_gradient_stops.rs', 'src/task/rm_gradient_attrs.rs', 'src/task/apply_transforms/gradients.rs', 'src/task/rm_unused_coords.rs'], [('merge_gradients', 'src/task/merge_gradients.rs'), ('regroup_gradient_stops', 'src/task/regroup_gradient_stops.rs')], OUT, 'Composition of eleven tasks; each analysed result is the input of the next. Unused gradients are not removed in between.')
P('M59', 'Hiding default attributes leaves what is drawn unchanged',
  'remove-default-attributes only stops writing an attribute whose absence means the same: the initial value of a property where nothing else would be inherited (from ancestors, or from a use that instances the element), or the default of the attribute on that kind of element (without a reference that would supply it instead). What the document draws is unchanged, no other value is changed and no element removed or moved. The initial value on an element that inherits nothing is hidden.',
  ['inputs'], 'every presentation attribute on three levels and in use contexts; some forty attributes x values x every element kind', 'Nine documents are tested.', ['src/task/rm_default_attrs.rs', 'src/task/utils.rs'], [('remove_default_attributes', 'src/task/rm_default_attrs.rs')], OUT, 'Initial values and attribute tables are those of SVG 1.1, written independently of the code.')
P('M60', 'Removing text attributes leaves what is drawn unchanged',
  'remove-text-attributes only removes text and font properties, line-height and xml:space, and only from elements where nothing depends on them: no text or tref below or instanced by a use below, no length in em or ex there or on the element itself, no white space that xml:space keeps. What the document draws is unchanged, no value is changed and no element is removed or moved. From shapes and groups of shapes without such lengths all of them are removed.',
  ['inputs'], 'every text attribute on three levels x content that may depend on it (text, tspan, tref, lengths and lists in em/ex, chains of use, markers, patterns) x white space', 'Fourteen documents are tested.', ['src/task/rm_text_attrs.rs'], [('remove_text_attributes', 'src/task/rm_text_attrs.rs')], OUT, 'Judged by the pictures of lib/render.py with text attributes of SVG 1.1.')
P('M61', 'Removing needless attributes leaves what is drawn unchanged',
  'remove-needless-attributes only removes attributes without effect, or sets fill or stroke to none where nothing is painted; elements, links and every other value stay. An attribute that an instance by use, a marker or a descendant depends on has an effect, and so has enable-background on a container. What the document draws is unchanged.',
  ['inputs'], 'every presentation attribute on the painted element, its parents, instanced content and markers x values', 'Unit tests sample two dozen documents.', ['src/task/rm_needless_attrs.rs'], [('remove_needless_attributes', 'src/task/rm_needless_attrs.rs')], OUT, 'Judged by the pictures of lib/render.py.')
P('M62', 'Coordinates are left out only where their absence says the same',
  'remove-unused-coordinates only stops writing x and y of the root svg element, ry of a rect that equals rx, and fx or fy of a radial gradient that equals cx or cy. Nothing is removed or changed otherwise, and what the document draws is unchanged: percentages of different axes are not equal, and gradients that inherit the focus through any chain of gradients keep it.',
  ['inputs'], 'every attribute of every element; corners x units x hidden attributes; radial gradients x focus x reference chains through both kinds of gradients', 'Six documents are tested.', ['src/task/rm_unused_coords.rs'], [('remove_unused_coordinates', 'src/task/rm_unused_coords.rs')], OUT, 'Judged by the pictures of lib/render.py.')
P('M63', 'Rounding changes every number by less than its configured precision and nothing else',
  'With a precision of n digits (1 to 12), every number of the attributes the documentation lists for that precision becomes the nearest decimal with n digits; a, b, c and d of transforms have the precision of transforms, e and f that of coordinates, path data, points and viewBox that of paths. Units, arc flags, the kinds of path commands, all other values and the rest of the document stay as they are.',
  ['inputs', 'configurations'], 'every attribute of every element x precisions 1 to 12 x kinds of values and path commands', 'No test covers the rounding of attributes.', ['src/task/round_numbers.rs'], [('round_numbers', 'src/task/round_numbers.rs')], OUT, 'Rounding is evaluated in double precision on sixteen numbers per attribute and precision.')
P('M64', 'Joining properties into a style keeps every property and its value',
  'join-style-attributes moves all written presentation attributes of an element into its style, each with its value, and none is written twice or lost: never (no), from six of them on (some), or always (all). Hidden attributes and attributes that are no properties stay as they are. No empty style is written, and lengths of CSS 2 properties get the unit a style requires.',
  ['inputs', 'configurations'], 'every attribute x number of properties x hidden properties x modes x units', 'Two elements are tested.', ['src/task/join_style_attrs.rs'], [('join_style_attributes', 'src/task/join_style_attrs.rs')], OUT, 'How svgdom writes a value is trusted.')
P('M65', 'Grouping by style leaves what is drawn unchanged',
  'group-by-style moves properties and transforms that neighbours share to their group or to a new group only where every element still gets the same value: not out of elements that are used elsewhere, not values that depend on the font of the element that has them, and no transform to or from a nested svg. No element is lost, and the drawn elements stay in their order. A property that all children of a group have is moved.',
  ['inputs'], 'parents x children of every kind x every property x positions', 'Thirty snippets are tested.', ['src/task/group_by_style.rs'], [('_group_by_style', 'src/task/group_by_style.rs'), ('move_nodes', 'src/task/group_by_style.rs')], OUT, 'inherit and currentColor are resolved before (M41).')
P('M66', 'All tasks together leave what is drawn unchanged',
  'After each task of the cleaner, in the order in which it runs them, with all options on, with each one off and with each one alone, the document draws the same as before cleaning: what one task leaves behind (removed parents, changed coordinate systems, moved properties, merged definitions) never leads a later task to change the picture. No reference to a removed element stays.',
  ['inputs', 'configurations', 'histories'], 'fifty kinds of content x ten kinds of parents, pairs of them, every option on its own', 'Tests run one task at a time, or compare option defaults.', ['src/cleaner.rs', 'src/task'], [('clean_doc', 'src/cleaner.rs clean_doc'), ('all tasks', 'src/task')], OUT, 'Numbers are not rounded (precision 6 and 8). join_style_attributes and fix_xmlns_attribute are decided by M64 and M34.')
N('M90', 'Cleaning does not change how the image is rendered',
  'For every accepted document and option set, the cleaned document renders to the same image as the original, up to the configured rounding precision.',
  ['inputs', 'configurations'], 'all SVG documents, all options', 'Tests compare a few hundred serialised snippets.', ['src/task'], [('all tasks', 'src/task')],
  'Equality of rendered images quantifies over runtime geometry and a renderer that is not part of the code; no sound static argument in reach bounds it. Its structural preconditions (what may be removed, merged or rewritten and under which conditions) are claimed separately.')
N('M91', 'Cleaning reaches a fixpoint and cleaning twice changes nothing more',
  'With --multipass the passes end for every document, and cleaning a cleaned document again with the same options gives the same document.',
  ['inputs', 'histories'], 'all documents, all option sets, all numbers of passes', 'Tests clean a document once.', ['src/main.rs', 'src/cleaner.rs', 'src/task'], [('main loop', 'src/main.rs main')],
  'It needs a measure that every task decreases, over values, coordinates and the writer of svgdom; idempotence does not hold in general (one task enables another, which is why --multipass exists). That the passes are chained correctly and end when two outputs are equal is decided by M05.')
N('M92', 'The output is well-formed and parses to the cleaned document',
  'What is saved is well-formed XML, and parsing it gives the cleaned document back, whatever write options are used.',
  ['inputs', 'configurations'], 'all documents and write options', 'Tests compare serialised snippets.', ['src/cleaner.rs'], [('write_buffer', 'src/cleaner.rs')],
  'Round-trip equality of the parser and writer of svgdom, a dependency that is not in the repository. That the cleaned document is serialised completely with the options given is decided by M05 and M10.')
N('M93', 'Cleaning never makes a document bigger and takes time linear in its size',
  'The cleaned document has at most as many bytes as the original, and no document makes cleaning disproportionately slow.',
  ['inputs'], 'all documents', 'Tests do not measure.', ['src/task'], [('all tasks', 'src/task')],
  'Byte counts and running time are runtime quantities; several tasks are quadratic, and the result can be bigger (M03 decides that such a result is refused).')
N('M94', 'No document makes the cleaner panic',
  'Whatever the document and options are, cleaning returns a document or an error and never panics or overflows the stack.',
  ['inputs', 'configurations'], 'all documents', 'Tests use some hundred documents.', ['src/task'], [('all tasks', 'src/task')],
  'Most unwrap and indexing sites rest on invariants of the parsed document and of earlier tasks (attribute types by name, svg root, resolved gradients), and recursion depth is that of the document; none of it is visible in the shape of the code, and a ban of these constructs would fire on correct code.')
