# One P(...) per property; read by catalog.py.

SAMPLED = """Sampled, not exhaustive: seeded random workloads judged by an independent
model; a violation comes with the failing case as a replay file."""

P('C01', 'The strongest active layer decides; muted and unsoloed layers do not count',
  """A composed node exists exactly if an active layer authors it, and
  each of its authored fields (attribute values, code, comment, enabled, execute-in,
  start point) comes from the strongest active layer that states it. A layer
  is inactive when it is muted, or when any layer is soloed and it is not (a layer's own
  flag is overridden by what the layers referencing it say). Strength
  follows the file order: a file is stronger than what it references, and earlier
  references are stronger than later ones.""",
  ['inputs', 'configurations', 'histories'],
  """Every tree of layer files, every combination of mute and solo flags (saved, given
  by a referencing layer, or toggled on the open stage), every spread of opinions.""",
  """The unit tests compose a handful of fixed files with at most one or two muted
  layers; the rule ranges over all opinion patterns and flag combinations.""",
  ['nxt/stage.py', 'nxt/nxt_layer.py', 'nxt/nxt_node.py'],
  [('build_stage walks active layers from strong to weak', 'nxt/stage.py build_stage'),
   ('active layer selection', 'nxt/nxt_layer.py get_active_layers'),
   ('mute and solo overrides', 'nxt/nxt_layer.py _get_meta_attr, set_mute_over')],
  ['Stage.build_stage', 'SpecLayer.get_muted', 'SpecLayer.get_soloed'],
  'online model comparison of composed graphs over random layer stacks',
  SAMPLED)

P('C02', 'Attributes flow down the node hierarchy to the nearest opinion',
  """A composed node has exactly the attributes that it or any of its ancestors
  (including the world) states in an active layer, each once. Its value, type comment and
  reported source layer and source node come from the nearest node in its line of
  ancestors with an opinion, and within that node from the strongest layer.""",
  ['inputs'],
  """Every graph without instances: any depth, any number of layers, any JSON value
  (including empty, zero, false and null ones) at any level.""",
  """Tests look at a few inherited attributes in fixed graphs; the claim is about every
  opinion pattern over depth and layers, including falsy values.""",
  ['nxt/stage.py', 'nxt/nxt_node.py'],
  [('node classes inherit from their parent node', 'nxt/stage.py build_stage, '
    'add_node_to_comp_layer'), ('attribute sources', 'nxt/stage.py get_node_attr_source')],
  ['Stage.get_node_attr_names', 'Stage.get_node_attr_value',
   'Stage.get_node_attr_source', 'Stage.get_node_inherited_attr_names'],
  'online model comparison of composed attributes and their reported sources', SAMPLED)

P('C03', "Instances mirror their source's subtree and yield to local opinions",
  """A node whose composed instance path names an existing node gets that node's
  attributes, code and whole subtree, including subtrees the source itself gets through
  instances. Anything stated locally on the instance, or on nodes below it, overrides
  what the source gives, and source nodes are never changed by being instanced.""",
  ['inputs'],
  """Every layered graph with instances (absolute or relative paths, chains, instances
  inside instanced subtrees, overrides below them) in which no node instances itself,
  an ancestor or a descendant and no node gets competing sources.""",
  """Tests instance a few fixed shapes; the order-dependent resolution of chains and
  nested instances over several layers is what sampling by hand misses.""",
  ['nxt/stage.py'],
  [('proxy composition', 'nxt/stage.py comp_pre_proxies, comp_proxies, '
    'post_proxy_comp'), ('instance sorting', 'nxt/stage.py sort_instances'),
   ('base class updates', 'nxt/stage.py _safe_mro_add_base_class')],
  ['Stage.build_stage', 'CompLayer.lookup'],
  'online model comparison of composed graphs with instances', SAMPLED +
  """ The lineage rule of the model: own layers, then the parent's lineage, then the
  source's, shared ancestry last.""")

P('C04', 'Composing is a repeatable function of the authored layers and leaves them be',
  """Composing the same authored layers always gives the same composition, however often
  it is done, however keys are ordered in the files, whatever was asked of an earlier
  composition, and whether or not layers were muted and unmuted in between. Composing
  and querying never change the authored data nor what saving would write, and
  composing from a given layer downwards equals composing a stage of only those layers.""",
  ['inputs', 'histories'],
  """Every layered graph and every sequence of compositions and queries.""",
  """Tests compose once and look; they never compare a second build, a shuffled file or
  the authored data afterwards.""",
  ['nxt/stage.py', 'nxt/nxt_layer.py', 'nxt/nxt_node.py'],
  [('composition builds new classes instead of writing to spec nodes',
    'nxt/stage.py build_stage, nxt/nxt_node.py CompNode'),
   ('lazy child caches', 'nxt/nxt_layer.py children')],
  ['Stage.build_stage', 'SpecLayer.get_save_data'],
  'differential runs of the real composer under repeated, shuffled, interleaved use',
  SAMPLED)

P('C05', 'Every edit does what it says to its layer, and nothing else',
  """Adding, deleting, renaming, reparenting and duplicating nodes, and setting,
  renaming and deleting their data, changes the target layer's authored data exactly as
  described: renames and moves carry the subtree and how it is laid out, names are made legal and unique, child
  orders follow, deletes remove the subtree asked for. Other layers' data stays as it
  was, and saving and reloading after any history of edits composes to the same graph.""",
  ['histories', 'inputs'],
  """Every history of edits, over every layered graph.""",
  """Tests apply single edits to fixed graphs; the bookkeeping (paths, names, orders,
  caches) only goes wrong after particular sequences.""",
  ['nxt/stage.py', 'nxt/nxt_layer.py'],
  [('edit methods', 'nxt/stage.py add_node, delete_node, set_node_name, parent_nodes, '
    'duplicate_node, node_setattr_data'), ('layer indexes', 'nxt/nxt_layer.py refresh, '
    'child cache')],
  ['Stage.add_node', 'Stage.delete_node', 'Stage.set_node_name', 'Stage.parent_nodes',
   'Stage.duplicate_node', 'Stage.node_setattr_data', 'SpecLayer.get_save_data'],
  'online monitor stepping a model of each layer beside random edit histories',
  SAMPLED,
  state=[('node table', 'path to node index of a layer', 'nxt/nxt_layer.py'),
         ('child cache', 'children per path', 'nxt/nxt_layer.py')])

P('C06', 'A live composition kept up to date by edits equals one built afresh',
  """When edits are given a live composition to maintain, after every edit that
  composition shows the same nodes, children, attributes, values, sources, code and
  enabled states as composing the edited layers from scratch. Adding, deleting, and
  setting the enabled state also name every node whose composed view they changed (itself
  or a node above it).""",
  ['histories'],
  """On layers that take part in the composition, whether or not others are muted, every
  history of: adding and deleting nodes, creating and setting attributes, code
  and enabled, in graphs without instances; creating and setting attributes, code and
  enabled, and adding nodes of fresh names, in graphs with instances.""",
  """The tests have a few single-step comparisons; incremental update is exactly where
  histories matter.""",
  ['nxt/stage.py', 'nxt/nxt_layer.py'],
  [('incremental composition', 'nxt/stage.py add_node, delete_node, ripple_delete, '
    'targeted_comp_*, update_inherited_attrs, node_setattr_data')],
  ['Stage.add_node', 'Stage.delete_node', 'Stage.node_setattr_data',
   'Stage.build_stage'],
  'differential monitor: live composition against a rebuild after every edit',
  SAMPLED + """ Child order of the live composition, live instance changes, and in graphs with
  instances deletions and additions of names an instance already has, are not
  compared.""")

P('C07', 'Every way of asking about the node tree gives the same tree',
  """Children, descendants, ancestors, existence and lookup, in every form the answer can
  be asked for (paths, nodes, tables, name or path keyed, yes or no), ordered or not,
  with or without implied nodes, describe one tree: the one spelled by the node paths.
  Ordered answers name every child once and honour the node's explicit child order
  first.""",
  ['inputs', 'histories'],
  """Every layer and composition, every node, every form of the question, in any order
  of asking.""",
  """Tests ask a few forms on fixed graphs; answers are cached and built by separate code
  per form, so agreement must hold for each graph and order of asking.""",
  ['nxt/nxt_layer.py'],
  [('children and its cache', 'nxt/nxt_layer.py children, add_child_to_child_cache'),
   ('descendants, ancestors', 'nxt/nxt_layer.py descendants, ancestors')],
  ['SpecLayer.children', 'SpecLayer.descendants', 'SpecLayer.ancestors',
   'SpecLayer.lookup', 'SpecLayer.node_exists'],
  'online cross-checking of all query forms against the tree of paths', SAMPLED)

P('C08', 'Execution order: enabled nodes, depth first, along the chain of roots',
  """From a root, the order runs that root and its descendants depth first in child
  order, skipping disabled nodes with everything below them, and goes on with the root
  that executes in it, and so on along the chain, cyclic chains included, each root at
  most once. Starting below a root, the order begins at that node and is otherwise the
  same. Start points are exactly the roots that are flagged
  as such.""",
  ['inputs'],
  """Every layered graph, chain of roots (also branching, cyclic and dangling), child
  order, set of disabled nodes and start node.""",
  """Tests compare the order of a few graphs; the rule ranges over all chains, orders and
  disabled sets.""",
  ['nxt/nxt_layer.py', 'nxt/stage.py'],
  [('execution order', 'nxt/nxt_layer.py get_exec_order, get_root_exec_order'),
   ('start points', 'nxt/stage.py get_layer_start_nodes')],
  ['CompLayer.get_exec_order', 'Stage.get_layer_start_nodes'],
  'online model comparison of execution orders', SAMPLED)

P('C09', 'Running nodes: what node code sees, changes and leaves behind',
  """A run executes the layer node's code first and then the nodes in order, each with the
  code and attributes composed for it: text that is a Python literal arrives as that
  value, tokens resolve against the current state, parameters count as set beforehand. A
  changed attribute is from then on what that node and all nodes inheriting or instancing
  it without a nearer opinion see (set on STAGE, the layer node, authored or not: all
  nodes without their own), while only names declared global outlive a node, and
  running other nodes from node code gives the caller its own context back. Runs never
  change authored data, and repeating a run, or continuing one on its runtime layer,
  gives what one uninterrupted run gives.""".replace(
  'beforehand. A\n', 'beforehand. A\n').replace('. Runs never', '; runs never'),
  ['programs', 'inputs', 'histories'],
  """Every layered graph, every program of reads, attribute changes, globals and nested
  runs in its nodes, every start, parameter set and point of continuation.""",
  """Tests run a few scripted graphs; state flows through inheritance, instances, tokens
  and nested runs in combinations they do not sample.""",
  ['nxt/stage.py', 'nxt/runtime.py', 'nxt/nxt_layer.py'],
  [('running one node', 'nxt/stage.py run'), ('runtime layer', 'nxt/stage.py '
    'setup_runtime_layer, set_runtime_parameters'),
   ('typed attribute values', 'nxt/stage.py get_attr_as_real_data_type'),
   ('dropping locals', 'nxt/stage.py clean_globals')],
  ['Stage.execute', 'Stage.execute_nodes', 'attributes and globals seen by node code'],
  'trace specification: node code reports what it sees, an interpreter over the '
  'composition model predicts every entry', SAMPLED)

P('C10', 'Leaving and failing: what ends, what is kept, what is reported',
  """Code that leaves its node ends only that node, keeping what it changed; code that
  leaves the graph ends the whole run, nested runs included, and hands over the runtime
  state. Any other exception in node code, system exits included, ends the run with a
  graph error naming the node, line number and source line, for each level of nested
  runs, and saying what was raised and through which functions; code that does not compile is reported the same way without any of it running.
  No later node runs, and authored data stays as it was.""",
  ['programs', 'inputs'],
  """Every layered graph and every placement of leaving, raising and uncompilable code in
  its nodes, also in nested runs and in code that catches the errors.""",
  """A test or two raise in one node of a fixed graph; which node, line and state result
  depends on where in which nesting it happens.""",
  ['nxt/stage.py', 'nxt/runtime.py'],
  [('error construction', 'nxt/runtime.py Console.runcode, GraphError, '
    'GraphSyntaxError'), ('leaving', 'nxt/stage.py run, execute_nodes')],
  ['Stage.execute', 'runtime.GraphError', 'runtime.ExitGraph'],
  'trace specification with injected exits, exceptions and syntax errors', SAMPLED)

P('C11', 'Saving a layer loses nothing and loading gives it back',
  """Saving a loaded layer writes every node opinion (JSON values of any kind, falsy ones
  included) and all layer data its file had; loading that file gives an equal layer and
  composition, and saving again gives the same bytes. A save that is refused (file ending
  is not a graph's, data is not JSON) leaves file and layer as they were; saving under a
  new name leaves the old file alone and all sources name the new one. A temporary copy
  of a composition composes the same on its own, keeps each layer's working directory,
  and leaves originals untouched.""",
  ['inputs', 'histories'],
  """Every tree of layer files with any JSON values, code text, layer flags, overrides,
  layout data, and every order of saving, renaming and reloading them.""",
  """Tests save one or two fixed graphs; what gets lost depends on the value (empty, zero,
  false, unicode), the flag, or how references are nested.""",
  ['nxt/nxt_layer.py', 'nxt/nxt_io.py', 'nxt/stage.py', 'nxt/nxt_node.py'],
  [('save data', 'nxt/nxt_layer.py SpecLayer.get_save_data, save'),
   ('node save data', 'nxt/nxt_node.py get_node_as_dict'),
   ('temporary copies', 'nxt/stage.py Stage.save_to_temp'),
   ('file access', 'nxt/nxt_io.py save_file_data, load_file_data')],
  ['SpecLayer.save', 'SpecLayer.load_from_filepath', 'Stage.save_to_temp'],
  'round-trip monitor over file contents, bytes, authored data and compositions, with '
  'refused saves injected', SAMPLED)

P('C12', 'References load completely and in order, and can be edited',
  """Loading a graph file loads everything it references, depth first and in listed order,
  each path expanded from the folder of the file that lists it (relative, absolute, home
  folder, environment variables) whatever the working directory, which stays as it was;
  references that cannot be opened or lead back to an ancestor are left out without losing
  any other. Adding a file below a layer or on top of all, and removing a layer with what
  it references, give the stage (order, parents, composition) that saving all layers and
  loading again gives.""",
  ['configurations', 'histories'],
  """Every tree of files and folders, every spelling of the references, every mix of missing,
  unreadable, newer and cyclic references, and every history of adding and removing.""",
  """Tests load a few fixed trees; order and robustness depend on the shape of the tree and
  where in it a reference fails.""",
  ['nxt/stage.py', 'nxt/nxt_io.py', 'nxt/nxt_path.py', 'nxt/nxt_layer.py'],
  [('loading', 'nxt/stage.py Stage.load_from_file, check_for_layer_ref_cycle'),
   ('editing references', 'nxt/stage.py Stage.new_sublayer, remove_sublayer; '
    'nxt/nxt_layer.py add_reference'), ('path expansion', 'nxt/nxt_path.py '
    'full_file_expand')],
  ['Stage.load_from_filepath', 'Stage.new_sublayer', 'Stage.remove_sublayer',
   'SpecLayer.add_reference'],
  'monitor of the loaded layers against a model of the file tree, with faulty references '
  'injected; compositions against a flat graph of the same files', SAMPLED)

P('C13', 'Layer names, colors, locks, mutes and solos: who overrides whom',
  """A layer's effective alias, color, lock, mute and solo is what the topmost layer above
  it says about it, each on its own, else its own value; asking locally gives its own.
  Setting or clearing an override changes only the layer asked (for alias, color and lock
  the topmost one), clearing falls back to weaker overrides, the top layer takes none, and
  saving keeps it all. Active layers follow from the effective flags; node positions and
  collapsed states of a composition come from the strongest layer that has them.""",
  ['configurations', 'histories'],
  """Every tree of layers, every spread of own values and overrides, and every history of
  setting, clearing, saving and reloading.""",
  """Tests set one override on one reference; precedence shows only with several layers
  talking about the same one.""",
  ['nxt/nxt_layer.py', 'nxt/stage.py'],
  [('overrides', 'nxt/nxt_layer.py get_comped_layer_overs, _get_meta_attr, '
    'set_alias_over, set_color_over, set_locked_over, set_mute_over, set_solo_over'),
   ('layout', 'nxt/stage.py build_stage')],
  ['SpecLayer.get_alias', 'SpecLayer.get_color', 'SpecLayer.get_locked',
   'SpecLayer.get_muted', 'SpecLayer.get_soloed', 'Stage.get_layer'],
  'state-machine monitor: every getter compared with a model after every step', SAMPLED)

P('C14', 'Tokens resolve from the inside out, as seen from the node that has them',
  """Resolving a value or line of code replaces each token once, innermost first: an attribute
  token gives the resolved value of that attribute as the asking node (or the node named by
  an absolute or relative path) composes it, nothing if it is missing; file, path, contents,
  node path, layer color and plugin tokens give what they name. Text whose tokens do not
  close stays as it is, authored and composed raw values are never changed by resolving,
  and the token parsing functions agree with this syntax for any text.""",
  ['inputs'],
  """Every text with any nesting of token kinds, in any layered graph with inheritance and
  relative instances.""",
  """Tests resolve some dozen fixed strings; the language nests without limit and tokens
  influence each other.""",
  ['nxt/stage.py', 'nxt/tokens.py', 'nxt/nxt_path.py', 'nxt/plugins/file_fallbacks.py',
   'nxt/plugins/example.py'],
  [('resolving', 'nxt/stage.py Stage.resolve, resolve_attr_ref_token, '
    'resolve_contents_token, get_node_attr_value, get_node_code_lines'),
   ('token syntax', 'nxt/tokens.py get_standalone_tokens, get_atomic_tokens')],
  ['Stage.resolve', 'Stage.get_node_attr_value', 'Stage.get_node_code_string',
   'tokens.get_standalone_tokens', 'tokens.get_atomic_tokens'],
  'differential run against an independent parser and interpreter of the token language',
  SAMPLED)

P('C15', 'Node and attribute paths and names compose and come apart without loss',
  """For any node path, its name, parent, root, depth, ancestors, trims and name list agree;
  being an ancestor goes by whole names, never by common text. Joining, replacing an
  ancestor and making an attribute path are undone by their inverses. A relative path
  means the node reached by walking its steps, the world being the top. Made-legal names
  are identifiers and legal ones are kept; a unique node or attribute name is legal, not
  taken where it was asked for, and the asked-for name if that is free.""",
  ['inputs'],
  """Every node path, relative path, attribute name and text; unused names in every
  layered graph.""",
  """Tests check a handful of paths with clearly different names; mistakes show for names
  that begin like each other, at the world, or going up further than down.""",
  ['nxt/nxt_path.py', 'nxt/stage.py'],
  [('paths', 'nxt/nxt_path.py'),
   ('names', 'nxt/stage.py legalize_name, get_unique_node_name, get_unique_attr_name')],
  ['nxt_path', 'Stage.get_unique_node_name', 'Stage.get_unique_attr_name',
   'Stage.legalize_name'],
  'differential run against the same operations on lists of names', SAMPLED)

P('C16', 'File tokens find the first existing file over layers and roots',
  """A file token takes its text with the attribute values of the composition from the asked
  layer down, then from each lower layer down, and gives the first existing file, looking
  in every existing folder of NXT_FILE_ROOTS before the folder of the topmost active
  layer of that composition; nothing if there is none. A file list token gives all of
  them, each once, in that order. A path token is relative to the first existing root,
  else the layer's folder. References between layers look in the roots first. The working
  folder and the environment are left alone.""",
  ['inputs', 'configurations'],
  """Every layered graph over any folders, roots and files, with muted and soloed layers and
  file names built from attributes of any node.""",
  """Tests resolve about ten tokens in one fixed set of files; fallback depends on which
  files exist where and what each layer says.""",
  ['nxt/plugins/file_fallbacks.py', 'nxt/stage.py', 'nxt/nxt_io.py', 'nxt/nxt_path.py'],
  [('fallbacks', 'nxt/plugins/file_fallbacks.py'),
   ('lower compositions', 'nxt/stage.py infer_lower_comp'),
   ('references', 'nxt/nxt_io.py register_reference_path_expander')],
  ['Stage.resolve', 'Stage.get_node_attr_value', 'Stage.get_node_code_string',
   'Stage.build_stage'],
  'differential run against a search by the rules over real files', SAMPLED)

P('C17', 'Files of older formats mean what they said; newer ones are refused',
  """A layer file of any earlier format version (before 1.0, 1.10, 1.15, 1.17) loads, alone or
  among layers of other versions, to the nodes, attributes, code, references, flags,
  overrides and layout it described, and composes as the same layers in the current
  format do. The converter writes a file that means the same, and converting that again
  changes nothing. Reading never changes the file. A file of a newer version, or one older
  than 0.39, is refused with an error by both, and nothing is written.""",
  ['inputs', 'configurations'],
  """Every tree of layers, each written down to any earlier version.""",
  """One test converts one file of one version.""",
  ['nxt/legacy.py', 'nxt/nxt_io.py'],
  [('converters', 'nxt/legacy.py'), ('versions', 'nxt/nxt_io.py load_file_data')],
  ['nxt_io.load_file_data', 'legacy.cli_file_convert', 'Stage.load_from_filepath'],
  'differential run: graphs written down to older formats against their current form',
  SAMPLED)

P('C18', 'The record of a run says what ran, when, and what became of it',
  """After any runs against one runtime layer (node lists, nodes running other nodes or
  themselves, custom code), however they ended, its cache layer holds the world node and
  exactly the nodes that ran, each with its code as it ran (tokens resolved) and the
  attributes it ended or failed with. Each run is timed once, runs inside runs lie inside
  their times, and was_during_node_exec is true exactly within them. Saved and loaded, the
  record has the same nodes, code and attributes, with every value JSON can hold. Errors
  in custom code name its line; leaving from it is handed back.""",
  ['inputs', 'histories', 'faults'],
  """Every sequence of runs of any programs.""",
  """One test looks at what a failed node tried to run; records depend on nesting,
  repeated runs and failures.""",
  ['nxt/nxt_layer.py', 'nxt/stage.py', 'nxt/nxt_node.py'],
  [('record', 'nxt/nxt_layer.py CacheLayer'), ('runs', 'nxt/stage.py run'),
   ('custom code', 'nxt/stage.py execute_custom_code')],
  ['CacheLayer.lookup', 'CacheLayer.was_during_node_exec', 'CacheLayer.get_node_run_time',
   'CacheLayer.save', 'CacheLayer.load_from_filepath', 'Stage.execute_nodes',
   'Stage.execute_custom_code'],
  'monitor comparing the record with an interpreter of the programs after every run',
  SAMPLED)

P('C19', 'A sub graph node runs its graph with its attributes and takes back the results',
  """Running a node that is an instance of the builtin sub graph node, however it came by its
  attributes, runs the graph at its path from its start with each of its attributes given
  to that graph's world node and its parameters to the nodes they name. Afterwards it holds
  what parameters and world code gave the called world node, seen by whatever comes next.
  A called graph that leaves early hands back what it had; one that fails fails the
  caller, with an error naming every node and line on the way. The record of the called
  run is written where asked. Called graphs can call graphs. No authored data changes.""",
  ['inputs', 'histories', 'faults'],
  """Every chain of graphs calling graphs with any attributes, parameters and endings.""",
  """Two tests call one inner graph that writes one file.""",
  ['nxt/builtin/sub_graphs.nxt', 'nxt/stage.py', 'nxt/nxt_layer.py'],
  [('sub graph node', 'nxt/builtin/sub_graphs.nxt /_sub_graph'),
   ('parameters', 'nxt/stage.py set_runtime_parameters')],
  ['Stage.execute_nodes', 'Stage.setup_runtime_layer', 'CacheLayer.lookup',
   'CacheLayer.load_from_filepath'],
  'differential run against an interpreter of the programs, over real graph files',
  SAMPLED)
P('C20', 'Every way to run a graph is the same run, remote contexts included',
  """Running a graph file through a session, the package's execute_graph, a list of nodes, the
  command line, or a context (in an interpreter of its own, by the remote server, alone or
  with other runs at once, or by the builtin remote sub graph node) is the same run: node
  code sees the same values in the same order, whether the file is said absolutely,
  relatively or with variables, the start given or found, and parameters given in line or
  in a file. It ends the same: failures are reported to the caller, leaving early keeps
  results. What comes back from a context is the record of the run. Wrong arguments (bad
  parameters, a missing start, file or context) are refused and run nothing. Callers keep
  their working folder, environment and open files.""",
  ['inputs', 'schedules', 'faults'],
  """Every graph, start, parameters, spelling of its path and way of running it; any
  number of remote runs at once.""",
  """The tests run a few example graphs in this process, with none of these compared, and
  remote contexts are not run at all.""",
  ['nxt/session.py', 'nxt/cli.py', 'nxt/__init__.py', 'nxt/remote/__init__.py',
   'nxt/remote/server.py', 'nxt/remote/client.py', 'nxt/remote/contexts.py',
   'nxt/builtin/remote_contexts.nxt', 'nxt/builtin/_context.nxt'],
  [('a session\'s runs', 'nxt/session.py Session.execute_graph'),
   ('the command line', 'nxt/cli.py execute'),
   ('the server', 'nxt/remote/server.py ServerFunctions.exec_in_headless'),
   ('contexts', 'nxt/remote/contexts.py')],
  ['Session.execute_graph', 'Session.execute_nodes', 'nxt.execute_graph', 'nxt.cli.main',
   'nxt.create_context', 'NxtClient.exec_in_headless'],
  'differential monitoring of real runs, across processes, against Stage.execute',
  SAMPLED)
P('C21', 'A session keeps the graphs opened in it apart',
  """A session lists exactly the graphs opened in it and not yet closed. Opening a file gives
  a new graph with what is in the file; asking for a file gives the graph already open from
  it, however its path is spelled, edits included, and opens it only when there is none.
  Running a file runs the graph open from it. Edits and saves of one graph change no other
  graph and no other file; a save writes the graph asked for, all of it, to the file asked
  for, however its path is spelled, and from then on that path says the graph, wherever
  the process goes. New graphs have names of their own and
  take the name of the file they are first saved to. Unknown ids, paths of no open
  graph and files that cannot be opened are refused and leave everything as it was.""",
  ['histories', 'inputs', 'faults'],
  """Every history of calls on a session; every spelling of a path (absolute, relative,
  through folders, links and variables).""",
  """The tests open a single graph at a time in a session and never close one, open one
  twice, or save one under another path and go on.""",
  ['nxt/session.py', 'nxt/nxt_io.py', 'nxt/nxt_layer.py', 'nxt/stage.py'],
  [('the open graphs', 'nxt/session.py Session.loaded_files'),
   ('found by path', 'nxt/session.py Session.get_stage'),
   ('saving', 'nxt/nxt_layer.py SpecLayer.save'),
   ('opening', 'nxt/nxt_io.py load_file_data')],
  ['Session.new_file', 'Session.load_file', 'Session.get_stage', 'Session.save_file',
   'Session.save_layer', 'Session.unload_file', 'Session.execute_graph',
   'Session.execute_nodes'],
  'online monitoring of sessions against a model of histories, over real files',
  SAMPLED)
P('C22', 'Every opinion on a value can be traced to the layer and node it comes from',
  """For every node of every composed graph, the history of an attribute lists each opinion
  on it, with the layer and the node that holds it, from the one that wins to the weakest:
  nothing that was authored is missing, nothing is listed that was not, and the first one
  says the composed value. The layers that hold an opinion on a node, on one of its
  attributes, on its code or its comment are exactly those. The other attributes that a
  value or the code refers to are exactly those of its tokens, and are named from the node
  that says them. Each attribute of a node is named exactly once, as stated on the node
  itself, inherited (stated on an ancestor) or instanced (any other). Reverting the order of children gives the composed order of those a layer
  holds. A stash says what the layer says. Asking any of this changes nothing.""",
  ['inputs'],
  """Every stack of layers, hierarchy, instances, attributes and tokens.""",
  """The tests ask for the history of one attribute of one example graph, and for none of
  the others.""",
  ['nxt/stage.py', 'nxt/nxt_node.py', 'nxt/tokens.py', 'nxt/nxt_path.py'],
  [('history', 'nxt/stage.py get_historical_opinions'),
   ('holders', 'nxt/stage.py Stage.get_layers_with_opinion'),
   ('references', 'nxt/stage.py Stage.get_node_attr_external_sources'),
   ('arcs', 'nxt/stage.py CompArc.get_arc')],
  ['get_historical_opinions', 'Stage.get_layers_with_opinion',
   'Stage.get_uncomped_opinion', 'Stage.get_node_attr_external_sources',
   'Stage.get_node_code_external_sources', 'Stage.get_reverted_child_order',
   'Stage.get_stash_data'],
  'monitoring of real queries against the lineage computed from the authored files',
  SAMPLED)
P('C23', 'Log records are neither lost nor doubled, and each is told where it should be',
  """While a session log is open every record of nxt's loggers is in its file once, in order,
  under its level; before and after, none is. No two logs made share a file, also after
  earlier ones were stopped. Starting a log removes the log files nxt keeps a record of
  that are older than two days, and no other file. Standard error gets nothing, execution
  and above, or everything, as the verbosity last asked for says, each record once. Records
  that other processes send arrive once, in the order of each sender and with all they
  say, however they are cut up on the way and whatever other senders do; a sender that
  leaves is done with. A session's server can be started, used, stopped and started again;
  running graphs neither ends nor loses it.""",
  ['histories', 'schedules', 'faults'],
  """Every history of logs, levels and servers; any number of senders at once, every way
  their bytes arrive, every point at which they leave.""",
  """The tests never look at what is logged, and start no log receiver.""",
  ['nxt/nxt_log.py', 'nxt/session.py', 'nxt/remote/server.py'],
  [('session logs', 'nxt/nxt_log.py make_session_log'),
   ('old logs', 'nxt/nxt_log.py track_log_file'),
   ('verbosity', 'nxt/nxt_log.py set_verbosity'),
   ('receiving', 'nxt/nxt_log.py LogRecordStreamHandler.handle'),
   ('a session\'s server', 'nxt/session.py RPCServerProcess')],
  ['make_session_log', 'stop_session_log', 'set_verbosity', 'LogRecordSocketReceiver',
   'Session._start_rpc_server', 'Session.shutdown_rpc_server'],
  'offline check of what sinks hold against a record of what was sent, with stress senders',
  SAMPLED)
