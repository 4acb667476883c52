"""Writes /verif/properties.jsonl (run once whenever a property's text changes)."""
import json, os
R = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    R.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))
MOD="nnx/module.py"; ST="nnx/state.py"; CTX="nnx/contextlib.py"; TR="nnx/transforms.py"

p("M01","Splitting a module loses and duplicates nothing",
 "Splitting a module assigns each attribute reachable from it to exactly one place: variables, arrays and other registered node values become state entries named by their attribute path, submodules become structure, and every other attribute is recorded as a static field. No user attribute is dropped, duplicated or classified by anything but its value, and internal bookkeeping never appears in the result.",
 ["programs","inputs"],"every module class, attribute name and attribute value, at every depth of the module graph",
 "Tests split a handful of small Dict/Sequence modules; attributes are arbitrary Python objects with arbitrary names and the split is done by two separate recursive walks that have to agree for all of them.",
 [MOD,"nnx/nodes.py"],[("state walk",MOD+":_iter_state_recursive"),("definition walk",MOD+":_make_module_def_recursive"),("node test","nnx/nodes.py:is_node")],
 observe=["Module.partition","Module.get_state","Module.get_module_def"])
p("M02","Shared and cyclic submodules are visited once and rebuilt as shared",
 "Every traversal of a module graph (reading state, building the definition, popping state, for_each, init) visits each distinct module object exactly once and terminates on cyclic graphs, and all of them name a shared module's values by the same path. Merging rebuilds exactly one object per distinct module, so every alias and cycle of the original is re-established.",
 ["programs"],"every module graph, including diamonds, self references and longer cycles, in any attribute order",
 "Two tests cover one diamond and one self loop of get_state/merge; the pop and for_each traversals are never run on a cycle, and the attribute orders that make the traversals disagree are not sampled.",
 [MOD],[("visited sets",MOD+":_iter_state_recursive,_make_module_def_recursive,_pop_recursive,Module._on_all"),("index of rebuilt modules",MOD+":_build_module_recursive")])
p("M03","Merging rebuilds a complete, independent module",
 "Merging a definition with one or more states yields newly created module objects of the recorded types that carry every recorded static field, submodule and initialization flag, with every entry of every given state stored at its path and later states overriding earlier ones. Neither the definition, the given states nor any existing module is modified, and clone() is exactly such a rebuild of the module's own split.",
 ["programs","inputs"],"every definition and every list of states",
 "Tests merge a few fixed modules with one to three states; conflicts between states, flags and unusual attribute sets are not sampled.",
 [MOD],[("rebuild",MOD+":_build_module_recursive"),("state placement",MOD+":_update_module,_set_value_at_path"),("clone",MOD+":Module.clone")])
p("M04","Definitions compare by everything they rebuild",
 "Two module definitions compare equal exactly when their type, submodules, static fields and module flags are all equal, and equal definitions have equal hashes. Passing a definition (or a pure module) through JAX's flatten and unflatten preserves every one of its fields.",
 ["inputs"],"every pair of definitions",
 "JAX uses the comparison to decide whether a compiled function can be reused, so one missing field silently reuses a stale program for some pair of modules; tests compare almost no pairs.",
 [MOD],[("equality and hash",MOD+":ModuleDef.__eq__,ModuleDef.__hash__"),("pytree registration",MOD+":_moddef_flatten,_moddef_unflatten,_pure_module_flatten,_pure_module_unflatten")])
p("S01","Partitioning is exhaustive and first-match",
 "Partitioning a module, state or pure module by filters places every entry unchanged in the group of the first filter that matches it and returns the groups in filter order, a lone group unwrapped; it raises ValueError if any entry matches no filter or if `...` is used before the last position. filter() groups entries identically but leaves unmatched entries out instead of raising.",
 ["inputs"],"every state, every number and order of filters, and every overlap between them",
 "Tests use disjoint filters on five-entry states; overlapping filters, entries matched by none and longer filter lists are not enumerated.",
 [ST,MOD],[("split",ST+":_split_state"),("partition/filter",ST+":State.partition,State.filter"),("module level",MOD+":Module.partition,Module.filter,Pure.partition,Pure.filter")])
p("S02","The filter language means what it says",
 "A type filter matches exactly its instances, `...` matches everything, None matches nothing, a callable matches where it returns true, a tuple or Any matches what at least one member matches, All what every member matches, and Not exactly the complement, with arbitrary nesting; the predefined filter `buffers` matches exactly JAX and NumPy arrays. A string or any other kind of object used as a filter raises TypeError instead of matching something.",
 ["inputs"],"every filter expression and every (path, value) pair",
 "Tests exercise single type filters, one Not and the trailing `...`; the boolean structure for all combinations is not sampled.",
 ["nnx/partitioning.py"],[("conversion","nnx/partitioning.py:to_predicate"),("predicates","nnx/partitioning.py:OfType,Any,All,Not,Everything,Nothing")])
p("S03","State algebra: union with later-wins, exact difference, pure",
 "Merging states, by merge or by |, yields the union of their entries with the later state's value wherever paths collide; a - b yields exactly a's entries whose path does not occur in b. No state operation modifies its operands.",
 ["inputs"],"every pair or list of states with any overlap of paths",
 "Existing tests never merge overlapping states nor look at the operands afterwards.",
 [ST],[("merge",ST+":State.merge"),("operators",ST+":State.__or__,State.__sub__")])
p("S04","States have one canonical form and survive flattening",
 "A state holds exactly the entries it was given, and two states with the same paths iterate in the same sorted path order however they were built, so they have the same JAX tree structure. Flattening yields every value once, keyed by its path in iteration order, and unflattening pairs the leaves back with the same paths.",
 ["inputs"],"every set of entries in every construction order",
 "Tests build states in one order; a structure that depends on insertion order only shows up as a spurious retrace or a mixed-up leaf for particular modules.",
 [ST],[("construction",ST+":State.__init__"),("flattening",ST+":_state_flatten_with_keys,_state_unflatten")])
p("U01","update_state overwrites what is given and nothing else",
 "Updating a module or a pure module from a State, a tuple of states, a pure module or a module makes the value at every path of the updates the new value, the last state given winning on conflicts, and leaves the value at every other path as it was. A pure module's update returns a new pure module and leaves the original unchanged.",
 ["inputs"],"every module, every kind of update argument, every overlap between updates and current state",
 "Tests update with complete states of one kind; partial and overlapping updates and the pure variant's precedence are not checked.",
 [MOD],[("module update",MOD+":Module.update_state,_update_module"),("pure update",MOD+":Pure.update_state")])
p("U02","pop_state removes exactly what it returns",
 "Popping state from a module removes from it exactly the entries that are returned, each returned once in the group of the first filter that matches it; entries no filter matches, static attributes and submodules stay. The pure variant returns the same groups together with a pure module holding exactly the remaining entries.",
 ["programs","inputs"],"every module graph and every list of filters",
 "Tests pop one top-level variable and one disjoint pair of filters; overlaps, nesting and sharing are not sampled.",
 [MOD],[("module pop",MOD+":_pop,_pop_recursive"),("pure pop",MOD+":Pure.pop_state")])
p("T01","Modules cannot be mutated from another trace level",
 "Assigning or deleting any attribute of a module, directly or through update_state, pop_state, sow, mutable leaf views or item assignment, from a JAX trace or an nnx trace other than the one the module was created in raises TraceContextError and leaves the module unchanged. The check is never bypassed by the kind of attribute or value, and within the creating trace it never fires.",
 ["programs","histories"],"every mutation path and every nesting of traces",
 "Tests try a plain assignment under jit and under grad; other mutation routes and the combinations of the two trace levels are not enumerated.",
 [MOD,"nnx/tracers.py","nnx/helpers.py"],[("guard",MOD+":Module._setattr"),("validity","nnx/tracers.py:TraceState.is_valid")],
 [("trace state","JAX and nnx trace captured at creation","nnx/tracers.py:TraceState")])
p("T02","Contexts cannot be used from another trace level",
 "Drawing a key from a context, splitting it or copying it in a JAX trace or nnx trace other than the one it was created in raises TraceContextError and does not advance any of its counters; in the creating trace these operations never raise for that reason.",
 ["programs","histories"],"every operation of a context and every nesting of traces",
 "Tests cover make_rng and partition under one jit; copies and nnx-level traces are not covered.",
 [CTX,"nnx/tracers.py"],[("guards",CTX+":Context.make_rng,Context.partition,Context.copy")])
p("T03","Lifted transforms run user code at their own trace level",
 "nnx.jit and nnx.grad enter a new nnx trace level before rebuilding the module (and, for jit, the context) they hand to the user function and before calling it, so modules and contexts from outside are rejected inside while the rebuilt ones are usable. The level is the trace of the values being transformed, and it is left again on every exit, including exceptions.",
 ["programs","fault_sequences"],"every user function, including ones that raise",
 "One test checks the rejection for grad; ordering of rebuild and level entry, contexts passed to jit and exceptional exits are not tested.",
 [TR,"nnx/tracers.py"],[("jit",TR+":JitTransform"),("grad",TR+":GradTransform"),("trace stack","nnx/tracers.py:nnx_trace")])
p("T04","Temporary modes are undone on every exit",
 "Every temporary mode the library turns on - nnx trace level, logical axis rules, repr indentation and cycle tracking, a pytree's mutable and initializing windows, a module's initializing flag - is undone when its scope ends, whether it ends normally or by an exception raised inside it.",
 ["fault_sequences"],"every exit of every scope, in particular an exception at any point inside it",
 "No test raises inside any of these scopes.",
 ["nnx/tracers.py","nnx/spmd.py","nnx/reprlib.py","nnx/pytreelib.py",MOD],[("context managers","nnx/tracers.py:nnx_trace; nnx/spmd.py:logical_axis_rules; nnx/reprlib.py:add_indent; nnx/pytreelib.py:_mutable,_initializing"),("init flag",MOD+":Module.init"),("repr cycle set",MOD+":Module.__nnx_repr__")])
p("R01","Keys drawn from a context never repeat",
 "Every draw from and every split of a stream consumes a fresh counter value, and the key of a draw is derived from the stream's base key and the stream's complete split path followed by the draw's counter, so no two draws from a context or from contexts split from it use the same derivation. Distinct paths are hashed from distinct encodings by a hash that is the same in every process.",
 ["histories"],"every interleaving of draws and splits, to any depth",
 "Tests check the first two draws and one split; a counter that fails to advance or an ambiguous path encoding collides only for longer histories.",
 [CTX],[("derivation",CTX+":Context.make_rng,_stable_hash"),("fork",CTX+":Context.partition")],
 [("count, count_path","draw counter and split path of a stream",CTX+":RngStream")])
p("R02","Contexts survive splitting, JAX and merging",
 "Splitting a context and merging the result gives a context with the same stream names, keys and flags, each stream starting at count zero below the split path recorded for that name. A split context can cross any JAX transformation: the stream keys are its only leaves, and everything else is static data compared by value.",
 ["inputs","programs"],"every set of streams and flags",
 "Tests merge a one-stream context without flags and never pass a split context through a JAX transformation.",
 [CTX],[("split/merge",CTX+":Context.partition,ContextDef.merge,PureContext.merge"),("pytree registration",CTX)])
p("R03","Every random key is consumed once",
 "In the built-in layers and transforms each key drawn from a context is consumed by at most one initializer, sampler or split on any execution path, and each parameter or mask is produced with its own freshly drawn key: parameters from the params stream, dropout masks from the layer's configured stream.",
 ["programs"],"every path through every layer constructor and call",
 "Reused keys give correlated but plausible numbers, which shape tests cannot notice.",
 ["nnx/nn/linear.py","nnx/nn/normalization.py","nnx/nn/stochastic.py",TR],[("layer constructors","nnx/nn/linear.py; nnx/nn/normalization.py"),("dropout","nnx/nn/stochastic.py:Dropout.__call__")])
p("X01","jit propagates exactly the state it should",
 "nnx.jit(f) applied to a module calls f with a rebuilt copy of it and the caller's other arguments unchanged, and returns f's result unchanged. When stateful it then writes the copy's complete final state back to the caller's module, and when not stateful it leaves the caller's module untouched; a first argument that is not a module raises TypeError. Lowering takes the same arguments as calling and leaves the module untouched.",
 ["programs","configurations"],"every module, function and argument list, stateful or not",
 "Two tests cover one assignment each way with no other arguments.",
 [TR],[("jit",TR+":JitTransform")])
p("X02","grad differentiates exactly the selected nodes",
 "nnx.grad(f) differentiates f with respect to exactly the nodes matched by wrt, holding all other nodes constant, and returns their gradients together with f's aux output exactly when has_aux is set. When stateful the rebuilt module's complete final state is written back to the caller's module, otherwise the module is left untouched, for every combination of stateful and has_aux.",
 ["programs","configurations"],"every filter, module, and combination of stateful and has_aux",
 "Tests only use the defaults with three filters; has_aux and stateful=False are never exercised.",
 [TR],[("grad",TR+":GradTransform,grad")])
p("X03","scan keeps groups, axes and metadata aligned",
 "For every variable_axes group scan moves the declared axis of each node to the front before the loop and back to the same axis afterwards, and likewise in_axes and out_axes for the scanned argument and output; the order of groups in filters, axes and merges is the same throughout, for initialization as well. Inconsistent lengths are rejected, and when a partition name is given its sharding entry is removed at the group's axis inside the body and present at that axis outside.",
 ["inputs","configurations"],"every set of groups and axes",
 "Tests use one group on axis 0, for which most misalignments are invisible.",
 [TR,"nnx/spmd.py"],[("apply",TR+":scan_apply"),("init",TR+":scan_init")])
p("X04","scan threads state and RNGs through the iterations",
 "Each scan iteration runs on a module rebuilt from that iteration's slices, the broadcast group and the carry left by the previous iteration, with one key per iteration for the streams selected by split_rngs and the whole key for the others. Afterwards the module holds the stacked slices, the final carry and every node created inside the body, and outputs are stacked in iteration order, also with reverse.",
 ["programs","configurations"],"every body, including bodies that create new nodes, and every split of the state",
 "Tests run bodies on linear, batch-norm and dropout layers only forwards and check shapes.",
 [TR],[("body",TR+":scan_apply.scan_fn"),("new carry nodes",TR+":scan_apply")])
p("X05","remat is transparent",
 "A rematerialized call runs the function on a module rebuilt from the caller's complete state with the caller's arguments and a context carrying the same streams, returns its output, and writes the resulting complete state back. static_argnums refer to the user's arguments after the module and are shifted to match the wrapped function's own leading arguments.",
 ["programs","configurations"],"every function, argument list and option",
 "Tests check output shapes of a linear layer without options or state changes.",
 [TR],[("remat",TR+":remat_apply,RematOptions")])
p("X06","Every accepted option takes effect",
 "Every option accepted by nnx.jit, grad, Scan/scan and Remat/remat reaches the underlying JAX transformation or the library's own handling of it under the same meaning, in the class form and the decorator form alike. Every constructor option of a built-in layer is used either in building its parameters or in its computation.",
 ["configurations"],"every option of every transform and layer, with any value",
 "Tests pass almost no options; a dropped or swapped option changes nothing a default-valued test can see.",
 [TR,"nnx/nn/linear.py","nnx/nn/normalization.py","nnx/nn/stochastic.py"],[("option records",TR+":ScanOptions,RematOptions"),("layers","nnx/nn")])
p("A01","Call proxies reach the named target on a copy",
 "apply, call and init follow the complete chain of attribute and item accesses from the root module to the target before calling it with the given arguments. apply and call act on a module rebuilt from the state, never on the original, and return the result together with the updated module or its split (apply) or alone (call); init runs on the original, with every module marked as initializing from the start of the call until it returns or raises.",
 ["programs"],"every access chain of any length",
 "Tests only use chains of length zero or one.",
 [MOD,"nnx/helpers.py"],[("accessor",MOD+":DelayedAccessor,CallableProxy"),("proxies",MOD+":ModuleDef.apply,Pure.apply,Pure.call,Module.apply,Module.init")])
p("V01","Assigning to a variable keeps its kind and metadata",
 "Assigning a plain value to an attribute that holds a variable keeps the variable's type and all its metadata and changes only the value; assigning a variable of another type or with other metadata raises ValueError and changes nothing. Storing a variable stores a copy and updates replace variables instead of modifying them, so no two attributes, modules or states ever share one mutable variable through the library.",
 ["inputs","histories"],"every variable, metadata and sequence of assignments",
 "Tests check three type conflicts on construction; metadata preservation and aliasing across histories are not tested.",
 ["nnx/containers.py",MOD,"nnx/pytreelib.py"],[("replace","nnx/containers.py:Container.replace,Container.copy,Container.is_equivalent,ContainerMetaclass.__call__"),("assignment",MOD+":Module._setattr; nnx/pytreelib.py:Pytree._setattr")])
p("V02","Variables are one-leaf pytrees carrying their metadata",
 "Flattening a variable or node yields its value as the only child and all its metadata as static data, and unflattening restores an equal variable of the same class, for user-defined subclasses too; a Static container has no leaves and carries its value as static data. Reading an attribute that holds a container always yields the contained value, through its unboxing function when it has one.",
 ["programs","inputs"],"every container class, including user subclasses, and any metadata",
 "Tests map over one Node and one Static; metadata and subclasses are not covered.",
 ["nnx/containers.py",MOD,"nnx/pytreelib.py"],[("registration","nnx/containers.py:NodeBase.__init_subclass__,_static_flatten,_static_unflatten"),("unboxing",MOD+":Module.__getattribute__; nnx/pytreelib.py:Pytree.__getattribute__")])
p("Y01","Pytree classes flatten completely and deterministically",
 "Flattening an instance of a Pytree class yields exactly its node-valued fields as children, in sorted field order, and all other fields as static data, so every field appears exactly once; unflattening restores an instance of the same class with the same fields. Every subclass is registered when it is defined, and field order of assignment never influences the structure.",
 ["programs","inputs"],"every Pytree subclass and field set",
 "Tests flatten a few two-field classes.",
 ["nnx/pytreelib.py"],[("flatten","nnx/pytreelib.py:Pytree._pytree__flatten,Pytree._pytree__unflatten"),("registration","nnx/pytreelib.py:Pytree.__init_subclass__"),("field order","nnx/pytreelib.py:PytreeMeta.call")])
p("Y02","Immutable pytrees stay immutable and replace makes a new one",
 "After construction a field can be assigned only if the class was declared mutable, and no class allows assigning a field that does not exist; violations raise AttributeError and change nothing. replace returns a new instance with the given fields changed and every other field, including whether it is a node or static, as before, rejects unknown fields, and leaves the original unchanged.",
 ["programs","histories"],"every Pytree class, dataclass or not, and every sequence of assignments",
 "Tests assign one field per kind of class and never check that replace keeps the kind of the untouched fields.",
 ["nnx/pytreelib.py"],[("guard","nnx/pytreelib.py:Pytree._setattr"),("replace","nnx/pytreelib.py:Pytree.replace")])
p("Y03","Pytree serialization round-trips and checks names",
 "The flax state dict of a pytree holds an entry for exactly its node-valued fields, and restoring from it rebuilds every such field with the structure of the original value, nested pytrees included, leaving the other fields and the original object unchanged. A missing or an unknown entry raises ValueError instead of being ignored.",
 ["inputs"],"every pytree, including nodes that wrap pytrees",
 "The one test wraps a nested pytree only in a plain field.",
 ["nnx/pytreelib.py"],[("save/restore","nnx/pytreelib.py:Pytree._to_flax_state_dict,Pytree._from_flax_state_dict")])
p("D01","Dataclass field specifiers mean what they say",
 "node_field, static_field, param_field and var_field store the field's value in a Node, Static, Param or the given variable type (with its sharding) respectively, in modules and pytrees alike, and pass default, default_factory, init, repr, hash, compare and metadata on unchanged to the dataclass machinery. A caller-supplied metadata mapping is kept and never modified, and an attempt to preset the container entry is rejected.",
 ["inputs","programs"],"every specifier and every combination of its arguments",
 "Tests declare one field of each kind without options.",
 ["nnx/dataclasses.py",MOD,"nnx/pytreelib.py"],[("specifiers","nnx/dataclasses.py:field,node_field,static_field,var_field,param_field"),("wrapping",MOD+":ModuleMeta._meta_call; nnx/pytreelib.py:PytreeMeta.call")])
p("I01","Module identities are unique and never recycled",
 "Every module object, however it comes to exist - construction, merging, copying or deep copying - has an identity no other module of the process has had, also when modules are created concurrently. Identities compare equal only to themselves, hash consistently, and copying an identity yields a new one.",
 ["schedules","histories"],"every interleaving of module creations and copies on any number of threads",
 "One test compares three ids on one thread; copies of modules are not tested.",
 ["nnx/ids.py",MOD],[("id source","nnx/ids.py:UUIDManager,UUID"),("module state",MOD+":ModuleState")])
p("I02","Ambient state is per thread",
 "The library's ambient state - current nnx trace level, logical axis rules, repr indentation and the set of modules being printed - is private to each thread, so using the library on one thread never changes what another thread observes. State that is shared between threads is modified only under a lock or when types are registered.",
 ["schedules"],"every interleaving of threads using the library",
 "All tests are single threaded.",
 ["nnx/tracers.py","nnx/spmd.py","nnx/reprlib.py",MOD,"nnx/ids.py","nnx/nodes.py"],[("thread locals","nnx/tracers.py:TraceContext; nnx/spmd.py:_AxisRules; nnx/reprlib.py:ReprContext"),("lock","nnx/ids.py:UUIDManager")])
p("L01","Logical axis rules are applied by priority, each mesh axis once",
 "Translating logical axis names assigns each dimension the mesh axes of the first rule for its name whose mesh axes are not already used by another dimension, so no mesh axis is assigned twice; duplicate names are rejected and dimensions without a rule follow the selected fallback: unsharded, an error, or no constraint at all. Explicitly given rules take the place of the ambient ones, and absent rules or specifications leave values unconstrained.",
 ["inputs","configurations"],"every list of names and rules",
 "One test translates two names with two disjoint rules.",
 ["nnx/spmd.py"],[("translation","nnx/spmd.py:_logical_to_mesh_axes,_mesh_assignment_free,logical_to_mesh_axes"),("constraint","nnx/spmd.py:_with_sharding_constraint_one_fallback,with_logical_constraint")])
p("L02","Adding and removing a sharding axis are inverse",
 "Adding an axis to sharding metadata inserts the partition name at the position the new array axis has, counting negative axes from the end, and removing it deletes the entry at that position and requires it to be that name; variables without sharding and values that are not variables pass through unchanged. No metadata but sharding changes, values are untouched, and the removal does not depend on assertions being enabled.",
 ["inputs","configurations"],"every sharding tuple, axis and partition name",
 "One test adds and removes axis 0 of full-rank shardings.",
 ["nnx/spmd.py"],[("axis edits","nnx/spmd.py:add_axis,remove_axis"),("specs","nnx/spmd.py:get_partition_spec")])
p("H01","TrainState steps are complete and functional",
 "apply_gradients computes the optimizer update from the given gradients, the current optimizer state and the current parameters, and returns a new train state whose parameters, optimizer state and step (incremented by one) all come from that update, with every other field unchanged or as given; the original is unchanged. apply resolves each name to the field of that name, keeps given states as they are, and passes all of them on in order; parameters, optimizer state and step are the dynamic fields.",
 ["inputs","histories"],"every optimizer, gradient and sequence of steps",
 "The test applies one fake gradient and asserts nothing about the result.",
 ["nnx/helpers.py"],[("train state","nnx/helpers.py:TrainState")])
p("H02","Dict and Sequence behave as containers of their items",
 "A Dict iterates, counts, tests membership and looks up exactly the items put into it, with absent keys reported as KeyError by item access, and a Sequence has exactly the items it was given, in order, including none. Calling a Sequence feeds each item's output to the next (tuples as positional, dicts as keyword arguments, left unchanged), passing ctx to exactly the items that accept it.",
 ["inputs"],"every set of items, including the empty one",
 "Tests only index existing entries.",
 ["nnx/helpers.py"],[("containers","nnx/helpers.py:Dict,Sequence"),("signature test","nnx/helpers.py:has_keyword_arg")])
p("H03","sow accumulates without losing or mixing values",
 "Sowing into an absent name creates a variable of the requested type holding a one-element tuple, and sowing again appends the value to the end of that tuple, keeping the earlier ones. Sowing into an attribute that is not a variable of exactly that type holding a tuple raises ValueError and changes nothing.",
 ["histories"],"every sequence of sow calls and prior attribute values",
 "Tests sow twice and try one wrong attribute of each kind.",
 [MOD],[("sow",MOD+":Module.sow")])
p("N01","Layer modes are selected by argument, attribute, context in that order",
 "Dropout and BatchNorm take their mode from the call argument if given, else from the layer's attribute, else from the context's flag, False counting as given. Dropout in deterministic mode or with rate 0 returns its input unchanged without drawing a key; BatchNorm in inference mode uses the running statistics and leaves them unchanged, and otherwise uses batch statistics and moves both running statistics towards them by the momentum average.",
 ["inputs","configurations"],"every combination of argument, attribute and flag",
 "Tests use the flag alone.",
 ["nnx/nn/stochastic.py","nnx/nn/normalization.py",MOD],[("selection",MOD+":first_from"),("layers","nnx/nn/stochastic.py:Dropout.__call__; nnx/nn/normalization.py:BatchNorm.__call__")])
p("N02","Layers compute in one well-defined dtype",
 "Promoting a list of arrays casts every given array to one dtype - the requested one, or the joint result type of all of them raised to a floating type - keeps absent (None) entries absent and in place, and rejects a non-inexact requested dtype when an inexact one is required. Linear, Conv and Embed promote all their operands together with the layer's dtype before computing, and normalization statistics are computed in at least float32.",
 ["inputs","configurations"],"every mix of dtypes, None entries and requested dtype",
 "Tests run everything in float32.",
 ["nnx/nn/dtypes.py","nnx/nn/linear.py","nnx/nn/normalization.py"],[("promotion","nnx/nn/dtypes.py:canonicalize_dtype,promote_dtype"),("statistics","nnx/nn/normalization.py:_compute_stats")])
p("Q01","Printing a module is total and has no effect",
 "repr of any module, definition, state, variable or pytree terminates, on cyclic module graphs too by abbreviating a module already being printed, and lists every submodule and public static attribute of a module. Printing changes nothing that later operations can observe, so printing twice gives the same text.",
 ["programs","histories"],"every module graph",
 "No test prints anything.",
 [MOD,"nnx/reprlib.py"],[("module repr",MOD+":Module.__nnx_repr__"),("formatter","nnx/reprlib.py:get_repr")])
# not applicable
p("Z01","Layers compute the documented mathematical function",
 "Linear, Conv, Embed, BatchNorm, LayerNorm and Dropout return numerically what their documentation defines (matrix product, convolution with the given padding mode, lookup, normalization, masking scaled by the keep probability) for every shape, padding and dilation.",
 ["inputs"],"every input array, shape and configuration",
 "Tests check shapes of a few inputs.",
 ["nnx/nn/linear.py","nnx/nn/normalization.py","nnx/nn/stochastic.py"],[("layers","nnx/nn")])
p("Z02","An unchanged module never causes recompilation",
 "Calling a jitted function again with a module of unchanged structure, static attributes, shapes and dtypes never recompiles it.",
 ["histories"],"every sequence of calls",
 "One test counts traces of one function.",
 [MOD,TR],[("cache key",MOD+":ModuleDef.__eq__")])
p("Z03","A scanned module equals the unrolled loop",
 "The outputs and final state of a scanned module are numerically those of running its body in a Python loop over the slices.",
 ["inputs","programs"],"every body and input",
 "Tests check shapes only.",
 [TR],[("scan",TR+":scan_apply")])
p("Z04","Differentiation under remat and grad is numerically exact",
 "The gradients returned by nnx.grad, with or without remat around parts of the function, are numerically those of the mathematical derivative.",
 ["inputs","programs"],"every function and input",
 "Tests check gradients of sums.",
 [TR],[("grad",TR+":GradTransform"),("remat",TR+":remat_apply")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for r in R: f.write(json.dumps(r)+"\n")
for r in R:
    assert len(r["title"])<=80,(r["id"],len(r["title"]))
print(len(R))
