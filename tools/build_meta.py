"""Single source of properties.jsonl and MANIFEST.json. Run after editing; both are committed."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(pid, title, statement, over, quant, tests, files, mech, technique, note, observe=()):
  PROPS.append(dict(pid=pid, title=title, statement=" ".join(statement.split()), over=over,
                    quant=" ".join(quant.split()), tests=" ".join(tests.split()),
                    files=files, mech=mech, technique=technique,
                    note=" ".join(note.split()), observe=list(observe)))


M, S, C, T = "nnx/module.py", "nnx/state.py", "nnx/containers.py", "nnx/transforms.py"
CTX, PT, DC, SP = "nnx/contextlib.py", "nnx/pytreelib.py", "nnx/dataclasses.py", "nnx/spmd.py"
PART, H, TR, IDS, RP = ("nnx/partitioning.py", "nnx/helpers.py", "nnx/tracers.py", "nnx/ids.py",
                        "nnx/reprlib.py")
LIN, NORM, STO = "nnx/nn/linear.py", "nnx/nn/normalization.py", "nnx/nn/stochastic.py"

P("C01", "partition/merge and clone rebuild an isomorphic module graph",
  """Splitting a module into States and a definition and merging them again, or cloning or copying
  it, yields a graph isomorphic to the original: same classes, attributes, static values, container
  types and metadata, with submodules and values shared exactly where the original shared them,
  cycles included. The number, filters and order of the States do not matter, the values are exactly
  those in the States given, and the rebuilt modules are new objects: mutating either side never
  shows in the other.""",
  ["inputs", "histories"],
  """every module graph (any sharing, cycles, self references, attribute kinds), every exhaustive
  filter list and every history of mutations before and between round trips""",
  "Tests use three or four fixed modules; no random graphs, cycles appear in two tests only.",
  [M, S], [("_partition_recursive, _build_module and _update_module", M),
           ("Module.partition / ModuleDef.merge / clone / __copy__", M)],
  "graph-isomorphism monitor over random module graphs",
  """Oracle: abstract graph description compared by simultaneous traversal with the rebuilt object
  graph (identity map both ways); aliasing probed by mutation.""")

P("C02", "the state lists every node exactly once, at canonical paths",
  """The state of a module contains one entry for every array or variable attribute of every reachable
  module, exactly once even when the module is shared or on a cycle, and none for static attributes. The path of an entry
  is the '/'-joined attribute path of the first visit in sorted depth-first order, independent of the
  order in which attributes were created, of object addresses and of the process's hash seed. The
  state always reflects the attributes as they are at that moment, and for_each visits every distinct
  module of the type once.""",
  ["inputs", "histories", "configurations"],
  "every module graph, attribute creation order, process and hash seed",
  "Tests check a handful of paths in one process and one insertion order.",
  [M, S], [("_partition / get_state / mutable_state_dict / filter / for_each", M),
           ("State ordering", S)],
  "state-layout monitor against paths computed from the abstract graph",
  "Reference traversal on the description; separate processes with other hash seeds compared.")

P("C03", "filters follow their algebra; partition is first-match and exhaustive",
  """Type, path-callable, tuple, `...`, None, All, Any and Not filters select exactly the entries
  their meaning says, in any nesting, when used on modules, States or pure modules. Partitioning with
  several filters puts every entry in the group of the first filter that matches, in the order of the
  filters, each entry in exactly one group. A list that leaves an entry unmatched, has `...` before
  the last position, or contains something that is not a filter raises instead of dropping or
  misplacing an entry.""",
  ["inputs", "configurations"],
  "every filter term (any nesting), filter list and module state",
  "Tests use a few single-type filters and one composite.",
  [PART, M, S], [("to_predicate and the predicate classes", PART),
                 ("State.partition / State.filter, _partition_by_predicates", S)],
  "differential monitor: reference filter evaluator on every entry",
  "Reference evaluator over raw containers; group membership of each entry compared.")

P("C04", "state updates and State algebra behave like last-wins dictionaries",
  """Updating a module (or a pure module) with States, tuples of States, pure modules or modules
  changes exactly the paths present in the update to the given values, later ones winning, leaves every
  other attribute and every object identity alone, and is seen through every alias. State merge, union,
  difference, item access and iteration agree with the same operations on plain dictionaries and never
  modify their operands. An update whose variable has another type or other metadata than the stored one, or that
  is no State, module or tuple of States, is refused, and a refused update changes nothing.""",
  ["inputs", "histories"],
  "every module graph, update form, overlap of paths and order of updates",
  "Tests update one or two attributes of fixed modules.",
  [M, S, C], [("Module.update_state / Pure.update_state / _update_module", M),
              ("State.merge, __or__, __sub__", S), ("Container.copy_from / is_equivalent", C)],
  "dictionary-model monitor over random updates",
  "Dictionary model of paths; the whole graph compared before and after each update.")

P("C05", "pop_state moves exactly the matching nodes out of a module",
  """Popping filters from a module, shared and cyclic ones included, returns exactly the entries that
  match, each once, in the group of its first matching filter and at the path the full state would
  give it, and removes them through every alias. Every other attribute, static value and submodule stays
  as it was, and a pop that fails pops nothing. Putting the returned states back restores the module.""",
  ["inputs", "histories"],
  "every module graph, filter list and sequence of pops",
  "One test pops from a three-attribute module.",
  [M], [("Module.pop_state / _pop / Pure.pop_state", M)],
  "conservation monitor (popped + left = before) over random pops",
  "First-match computed on the abstract graph; conservation of entries checked after each pop.")

P("C06", "variables read as values, keep type and metadata when assigned",
  """Reading a module attribute that holds a variable gives its current value; assigning a plain value
  replaces only the value and keeps the variable's type and metadata; assigning a variable of the same
  type and metadata does the same, and one of another type or metadata is refused without side effects. A write or sow is seen
  through every module that shares the variable's owner and in the mutable state view, and writes
  through that view reach the module. Copying or replacing a variable gives an independent one with
  equal type and metadata.""",
  ["histories"],
  "every history of attribute, sow, mutable-state and container operations",
  "Tests sample single assignments on two modules.",
  [M, C], [("Module.__getattr__/__setattr__/sow", M), ("Container, Variable, with_metadata", C),
           ("MutableLeaf / mutable_state_dict", S)],
  "operation-by-operation reference model over random histories",
  "Model stores (type, metadata, value) per attribute and is compared after every operation.")

P("C07", "apply and call run a method functionally on a copy",
  """Running any method (reached through any chain of attributes and items) through the apply or
  call proxies of a module, a pure module or a definition gives the same result as calling it on an
  independent copy made at the time of the call, and the new state gives the same graph as the copy after the call. The original
  module and states are never changed, whether the method succeeds or raises.""",
  ["programs", "inputs"],
  "every method body (reads, writes, new and deleted attributes, exceptions) on every module graph",
  "Tests call apply on one counter module.",
  [M], [("ModuleDef.apply/call, Pure.apply/call, Module.apply, ApplyCaller", M),
        ("DelayedAccessor / CallableProxy", M)],
  "twin-execution monitor with scripted methods",
  "Twin copy run eagerly; outputs, resulting graph and untouched original compared.")

P("C08", "modules and contexts mutate only at the trace level that made them",
  """Every operation that changes a module or draws from a context made at another level of jax or nnx
  tracing raises a trace error and changes nothing, and reading it stays allowed; at its own level the
  operation works. This holds for every nesting of transforms, during the trace, after it ended
  (leaked modules), and for copies. After a rejected operation both levels remain usable.""",
  ["programs", "histories"],
  "every nesting of tracing transforms, level of the object and mutating operation",
  "Tests try one jit with one attribute assignment.",
  [TR, M, CTX], [("Trace / TraceState / nnx_trace stack", TR), ("Module.__setattr__ and friends", M),
                 ("Context.make_rng and fork", CTX)],
  "access-control monitor: every (operation, level) pair inside random trace stacks",
  "Expected allow/deny computed from the level pair; state compared after each denial.")

P("C09", "definition equality is structural; jit caches on it soundly",
  """Two module definitions are equal (with equal hashes) exactly when the modules have the same
  classes, static attributes, submodule structure with sharing, and initializing flags, independent of
  values and attribute creation order. Jitted functions of modules therefore return results for the
  module they are given, never those of an earlier trace of another structure, and do not retrace for
  an equal structure.""",
  ["inputs", "histories"],
  "every pair of module graphs and every sequence of calls of one jitted function",
  "Tests compare no definitions; caching is checked for one module.",
  [M], [("ModuleDef.__eq__/__hash__, flatten/unflatten as pytree", M), ("jit", T)],
  "equivalence-relation monitor over twins and one-step variants; trace counter",
  "Canonical form of the recipe decides equality; traces counted per jitted function.")

P("C10", "nnx.jit gives the results and state changes of the eager call",
  """Calling a function or method through nnx.jit returns what the eager call returns and leaves the
  module (values, metadata, new variables, sharing, and the identity of existing objects) and the
  caller's context as the eager call would, over any sequence of calls, nesting, static and donated
  arguments. With stateful updates off only the result is produced and the module stays as it was.
  Lowering accepts the arguments of the call and changes nothing.""",
  ["programs", "histories"],
  "every method script, argument kind, option and sequence of eager and jitted calls",
  "Tests jit three fixed functions once each.",
  [T, M], [("jit, jit_init, JITTransform", T), ("Module.update_state", M)],
  "twin-execution monitor: jitted history next to an eager twin",
  "Eager twin compared after every step: outputs, graph, identity, rng positions.")

P("C11", "nnx.grad is the gradient of the functional loss, plus state updates",
  """nnx.grad returns the derivative of the loss with respect to exactly the variables its filter
  selects (shared ones counted through all their uses), as a State at their paths, together with
  the auxiliary output when asked. Updates that the loss makes to the module are kept when stateful
  and discarded otherwise, and nothing else of the module changes.""",
  ["programs", "inputs", "configurations"],
  "every differentiable loss over every module graph, filter, aux and stateful option",
  "Tests differentiate two fixed losses.",
  [T, M], [("grad, GradTransform", T)],
  "differential monitor against jax.grad of an independent functional model",
  "Functional model keyed by variables, differentiated by jax.grad; compared leaf by leaf.")

P("C12", "nnx.scan and nnx.Scan equal the Python loop over the steps",
  """Scanning a function, method, constructor or module gives the outputs, carries, gradients and final
  variables of the plain Python loop over the steps, for stacked variables on any axis, broadcast and
  carry variables, every in/out axis specification, length, reverse and unroll. Variables created in the
  body appear stacked, broadcast or carried as their kind says. Lengths that cannot agree are refused
  and leave the module unchanged.""",
  ["programs", "configurations"],
  "every body, axis assignment, length, direction and module graph",
  "Tests scan one MLP block with axis 0.",
  [T], [("scan, scan_init, scan_apply, ScanCall, Scan", T)],
  "differential monitor against an explicit loop over plain arrays",
  "Explicit loop model; variables, carries and outputs compared after each of two runs.")

P("C13", "nnx.remat changes nothing but memory: values, gradients, state",
  """A function, method, constructor or module under remat returns the same values and gradients, makes
  the same changes to the module, and uses the same random keys as without it, for every policy and static
  argument, alone or inside jit, grad and scan; what its backward pass recomputes is what jax.checkpoint
  recomputes under the same policy.""",
  ["programs", "configurations"],
  "every method script, module graph, remat option and enclosing transform",
  "One test checks that remat runs.",
  [T], [("remat, remat_init, remat_apply, Remat", T)],
  "twin-execution monitor with and without remat",
  "Plain call on a twin; outputs, gradients, module graph and rng positions compared.")

P("C14", "RNG streams never repeat a key, are deterministic and independent",
  """No two draws in a family of contexts obtained from one root (by forking, partition/merge at any
  depth, in any interleaving) ever return the same key for the same stream. The keys are a function of
  the seeds and the history of draws of that stream alone: the same in another process, and unaffected by
  draws from other streams or inside forks. Unknown streams and invalid seeds are refused, and flags
  and stream names read back as given.""",
  ["histories"],
  "every history of draws and forks over every number and kind of streams",
  "Tests draw two or three keys.",
  [CTX], [("RngStream.next/fork/make_rng", CTX), ("Context.partition, PureContext.merge", CTX)],
  "offline event-log monitor: uniqueness, replay determinism, independence",
  """Key log of each history checked offline; a repeat counts unless it is a one-off coincidence of the
  32 bit fold (the same history from a fork must repeat it too).""")

P("C15", "lifted transforms split or share RNG streams as asked",
  """A context passed through nnx.jit, scan, remat, their classes or constructors, in any nesting, gives
  the body streams that differ per step where they are to be split and agree where they are to be
  broadcast, with the flags of the caller. No key seen inside is ever seen again in a later call, another
  stream or by the caller, and the same history gives the same keys.""",
  ["histories", "programs"],
  "every stream split filter, nesting of transforms and interleaving with the caller's draws",
  "One test splits dropout over a scan.",
  [T, CTX], [("scan/remat/jit ctx handling", T), ("Context.partition / replace", CTX)],
  "offline key-log monitor across transform boundaries",
  "Keys returned from inside the bodies; per-step distinctness/equality and global uniqueness.")

P("C16", "logical axis rules decide mesh axes by precedence; contexts nest",
  """Logical axis names map to mesh axes by the first applicable rule in order, no mesh axis is used
  twice, None rules replicate, and unknown names or duplicates are handled as documented. Rule contexts
  nest and are restored on exit, also after an exception. Sharding constraints and logically partitioned
  variables place arrays on the mesh accordingly and never change values; without a mesh or rules they do
  nothing.""",
  ["inputs", "configurations", "histories"],
  "every tuple of names, rule list, mesh and nesting of rule contexts",
  "Tests check two fixed rule lists without a mesh.",
  [SP], [("logical_to_mesh_axes, _logical_to_mesh_axes", SP), ("axis_rules / set_logical_axis_rules", SP),
         ("with_sharding_constraint, get_partition_spec", SP)],
  "reference assignment plus physical placement read back on an 8-device mesh",
  "Reference rule resolution; the sharding of each result array read back on a forced 8-device mesh.")

P("C17", "sharding metadata follows its variable through every operation",
  """The sharding names attached to a variable stay with it through assignment, updates, partition/merge,
  copies, jit, grad, remat, scan and optimizer steps. Lifting over an axis inserts or removes exactly the
  partition name at that axis and nothing else, so the body never sees it and the result always has it.
  Partition specs of a module or training state mirror its tree, with a spec per variable.""",
  ["histories", "configurations"],
  "every names tuple, axis index (negative too), chain of operations and module",
  "Tests check one scanned layer at axis 0.",
  [SP, C, T], [("add_axis / remove_axis / get_partition_spec", SP), ("ShardingMetadata / with_partitioning",
               C), ("scan metadata hooks", T)],
  "list-model monitor on names plus observation inside bodies",
  "List insert/delete model; names observed outside and inside bodies through every alias.")

P("C18", "Pytree classes are immutable jax pytrees with exact replace",
  """A Pytree class flattens into exactly its node fields with their names as key paths, keeps every other
  field as static data, and rebuilds an equal object, under jit and tree maps as well. Immutable ones
  refuse assignment and deletion after construction; fields that were not declared or made in the
  constructor cannot be added. replace returns a new object that differs exactly in the given fields, keeps
  container types and metadata, and never changes the original.""",
  ["inputs", "programs"],
  "every class (fields, inheritance, dataclass specifiers, mutability) and history of operations",
  "Tests use four small classes.",
  [PT, DC], [("Pytree / PytreeMeta, _pytree__flatten", PT), ("dataclass, field specifiers", DC)],
  "field-description monitor over generated classes",
  "Generated field description is the oracle for leaves, key paths, statics and replace.")

P("C19", "flax serialization of Pytrees round-trips exactly into a target",
  """Converting a Pytree to a flax state dict or bytes and restoring it into a target of the same class gives
  the source's values at every depth with the target's static fields and metadata. A dict that lacks a field
  or has an unknown one, at any depth, is refused. Source and target are never changed.""",
  ["inputs"],
  "every Pytree class with any nesting of dicts, lists, containers and Pytrees",
  "One test round-trips two flat fields.",
  [PT], [("_to_flax_state_dict / _from_flax_state_dict", PT)],
  "round-trip monitor with injected missing and extra fields",
  "State dict derived from the field description; faults (missing/extra field) at random depths.")

P("C20", "TrainState steps are optax steps on the parameters, nothing else",
  """Applying gradients to a train state gives the parameters and optimizer state that the optax
  transformation gives on the same arrays, advances the step by one, and leaves every other field and the
  old state unchanged, eagerly, jitted or scanned. Applying the model through the state merges the named
  fields or States in order, as the definition's own apply does. Training loops built on it follow the
  plain jax and optax loop.""",
  ["histories", "configurations"],
  "every parameter set, optax transformation and history of steps",
  "One test takes one SGD step.",
  [H], [("TrainState.create / apply_gradients / apply", H)],
  "differential monitor: random training histories against plain optax",
  "Same optax transformation on a plain dict of the arrays; plain-jax training loop.")

P("C21", "Linear, Conv and Embed compute what their definition says",
  """For every configuration accepted (features, kernel sizes, strides, paddings, dilations, groups, masks,
  bias, dtypes, batch shapes) the layers compute the convolution, affine map or table lookup of their
  definition, with parameters of the documented shape, dtype and initializer drawn once. Outputs and
  gradients agree with the flax layer of the same parameters. Inconsistent configurations and inputs
  are refused.""",
  ["inputs", "configurations"],
  "every layer configuration and input shape, dtype and value",
  "Tests check output shapes of a few configurations.",
  [LIN, "nnx/nn/dtypes.py"], [("Linear, Conv, Embed, canonicalize_padding", LIN),
                              ("promote_dtype", "nnx/nn/dtypes.py")],
  "differential monitor against float64 numpy definitions and flax.linen",
  "Numpy loops in float64 plus linen with the same parameters; initializer calls recorded.")

P("C22", "BatchNorm and LayerNorm use the statistics their definition says",
  """In training BatchNorm normalizes with the mean and variance of the batch over the reduction axes (and the
  mapped axis when named) and moves the running statistics by the momentum; in evaluation it normalizes
  with the running statistics and changes nothing; the mode comes from the argument, the attribute or the
  context flag in that precedence. LayerNorm normalizes over its feature axes only. Scale, bias, epsilon
  and dtypes apply as defined, and outputs agree with the flax layers.""",
  ["inputs", "configurations", "histories"],
  "every configuration and history of training and evaluation calls, eager, jitted or mapped",
  "Tests run one training call.",
  [NORM], [("BatchNorm, LayerNorm, _compute_stats, _normalize", NORM)],
  "differential monitor: float64 fold of the statistics over call histories",
  "Float64 numpy fold of statistics and flax.linen compared after every call.")

P("C23", "Dropout scales kept inputs, zeroes the rest, masks only when needed",
  """An active dropout returns each input either zeroed or divided by the keep probability, with a mask shared
  along the broadcast dims, kept at the stated rate, fresh for every call and drawn from the named stream
  only. A deterministic one, or rate 0, returns its input and consumes no random key; rate 1 returns zeros.
  The mode comes from the argument, the attribute or the context flag in that precedence, and a missing
  choice or stream is refused.""",
  ["inputs", "configurations", "histories"],
  "every rate, shape, broadcast dims, stream, mode source and history of calls",
  "Tests check one rate on one shape.",
  [STO], [("Dropout.__call__", STO)],
  "mask-decomposition monitor plus rng position tracking",
  "Outputs decomposed; binomial bounds at 6+ sigma; rng positions of every stream checked.")

P("C24", "nnx.Dict is a mapping of attributes, nnx.Sequence composes layers",
  """An nnx.Dict follows the mapping contract over its attributes: items, keys, length, membership, errors on
  missing keys, and the same variable semantics as attributes. An nnx.Sequence calls its layers in order,
  passing a tuple result as positional arguments, a dict result as keyword arguments, anything else as the
  single argument, and the context exactly to the layers that take one. Both survive partition and
  merge.""",
  ["inputs", "histories", "programs"],
  "every history of mapping operations; every list of layer signatures and result kinds",
  "Tests build one two-layer Sequence and one Dict.",
  [H], [("Dict, Sequence, _sequence call", H)],
  "reference-dict and explicit-fold monitors with a call log",
  "Plain dict and explicit fold with a log of every layer call.")

P("C25", "threads working on their own modules do not influence each other",
  """Threads that build, transform, initialize, print and train their own modules, or only read a shared one,
  get the results they would get alone, whatever the interleaving: trace levels, axis rules, initialization
  flags, contexts and printing of one thread never show in another. Modules created concurrently are
  always distinct.""",
  ["schedules", "programs"],
  "every interleaving of 2-4 threads at source-line and bytecode granularity",
  "No test uses threads.",
  [TR, IDS, SP, RP, M], [("thread-local trace state", TR), ("UUIDManager", IDS),
                         ("thread-local axis rules", SP), ("repr context", RP)],
  "seeded preemptive scheduler with solo-run oracle",
  "Deterministic scheduler preempts at lines/opcodes of nnx; each job's report equals the solo run.")

P("C26", "a module is initializing exactly during its init calls",
  """Every module reachable when an init call starts is initializing throughout that call, and when the call
  ends, normally or by an exception, each of them is exactly as initializing as it was before, also when calls
  nest, graphs share modules or modules are detached meanwhile. Modules created, copied or attached during a
  call are not initializing any more once the outermost init call has ended. The flag is seen by the module
  itself, by copies and definitions taken during the call, and inside transforms.""",
  ["programs", "histories"],
  "every nesting of init calls on every module graph, with exceptions and graph surgery inside",
  "One test checks the flag once.",
  [M], [("Module.init / _set_initializing / InitCaller", M), ("ModuleDef flags", M)],
  "flag-model monitor over random nested init calls",
  "Reference flag per module, compared at every point inside and after the calls.")

P("C27", "a failing transform leaves modules and trace levels as they were",
  """When a function under nnx.jit, grad, remat or scan (also nested) raises at any point, the error reaches the
  caller unchanged, and every module passed in or captured has exactly the attributes, values and sharing it
  had before the call. The modules stay mutable at their level, no tracer remains in them, and the same
  call then succeeds with the results it has without the failure. A Context used in the failed call stays
  usable and repeats no key it has given out (its position in the stream may have advanced).""",
  ["fault_sequences", "programs"],
  "every failure point of every script under every nesting of transforms",
  "No test raises inside a transform and inspects the module afterwards.",
  [T, TR, M], [("jit/grad/scan/remat update-after-success", T), ("trace stack restore", TR)],
  "fault injection at every step of scripted bodies; snapshot comparison",
  "Exception injected at each operation index in turn; graph snapshot and trace level compared.")

P("C28", "printing is total, faithful and free of side effects",
  """repr and str of every module, State, definition, pure module, variable, mutable leaf and Pytree terminate on
  every graph (shared and cyclic ones included). A module shows every submodule and public static attribute, with
  each module in full exactly once and `Type(...)` at repeated visits; a definition shows every submodule and
  static; States, variables and Pytrees show every entry with its value. Printing changes nothing, and the
  text depends on the structure alone: it is the same on repeated calls, inside transforms, in other threads and
  after (or while handling) a printing that failed; a failing part's own exception comes out.""",
  ["inputs", "histories", "fault_sequences"],
  "every object graph, including ones whose parts fail to print",
  "Tests print one State without checking the text.",
  [RP, M, S, C, PT], [("get_repr / Representable / seen set", RP), ("__nnx_repr__ methods", M)],
  "differential monitor of printed text over random graphs, with fault injection",
  "The text without whitespace is compared with an independent renderer; every k-th part's repr fails in turn.")

P("C29", "States, definitions, pure modules and contexts are lawful pytrees",
  """Flattening a State, pure module, variable, definition, or pure context and unflattening it gives back an equal
  object; the leaves are exactly the arrays it stores, in the order and at the key paths of its sorted
  entries. Equal structures have equal tree structures and different ones (types, metadata, paths, statics)
  differ, so tree maps, jit, vmap and scan treat them as the arrays they hold.""",
  ["inputs", "programs"],
  "every module state, variable metadata, context and tree operation",
  "Tests flatten one State.",
  [S, C, M, CTX], [("State/Pure/ModuleDef/Container pytree registration", S), ("PureContext", CTX)],
  "pytree-law monitor over random objects",
  "Expected leaves, key paths and structure equality computed from the description.")

P("C30", "re-exported activations and initializers are those of jax",
  """Every activation function and initializer that nnx exports has the values, derivatives, shapes, dtypes and
  statistics that its mathematical definition (and the jax function of that name) says, for all inputs,
  and the initializers depend on the key only.""",
  ["inputs", "configurations"],
  "every exported name, input value, shape, dtype and parameter",
  "No test calls them directly.",
  ["nnx/nn/activations.py", "nnx/nn/initializers.py", "nnx/__init__.py"],
  [("re-exports and wrappers", "nnx/nn/initializers.py")],
  "differential monitor against float64 definitions and jax",
  "Float64 numpy definitions and jax.nn functions on extreme, special and random inputs.")

P("C31", "every style of writing a training program trains the same model",
  """Training one model with nnx.grad on the module, under nnx.jit, with remat, functionally (States and
  definition under jax.jit), with pure modules, with TrainState, in a lax.scan over the steps or as a member of
  a vmapped ensemble gives the same losses, parameters, other variables and sown values after every step: those
  of the plain jax program of that model. Shared layers count once as variables and through all uses in
  gradients, and the model the run started from is left unchanged.""",
  ["programs", "histories", "configurations"],
  "every network of library layers and user modules, training style, optimizer and batch history",
  "Tests run two styles on one model without comparing them.",
  [M, T, S, H, NORM, STO], [("partition/merge/apply", M), ("jit, grad, remat, Scan", T),
                            ("TrainState", H)],
  "differential monitor: random networks trained in several styles and in plain jax",
  "Plain jax interpreter of the network description; all styles compared step by step.")

P("C32", "models built in traces, stacked, restored or composed are the same model",
  """Building a model under eval_shape, jit, vmap, scan or cond and taking it out as States and definition gives
  the structure, shapes, metadata and, where there are values, the values of the model built directly; once
  merged it can be changed like it. Saving its State (pickle, npz, msgpack, orbax, whole or by filter) and
  restoring it into the definition or a freshly built model gives the saved model, and stacked models are, slice by
  slice, the individual ones. A model composed of existing parts holds those parts themselves, and training a
  part of its State leaves the rest as it was.""",
  ["programs", "inputs", "histories"],
  "every model, transform to build it under, checkpoint format, filter and composition",
  "No test builds a model inside a transform or restores one.",
  [M, S, C, CTX], [("partition / merge / update_state", M), ("State pytree", S),
                   ("Context.partition / ContextDef.merge", CTX)],
  "twin monitor: models built directly against those built, saved or stacked elsewhere",
  "Tree structure, definition and leaves compared with the model built directly by the same code.")

P("C33", "nnx dataclasses are standard dataclasses with their variables wrapped",
  """A Module or Pytree class declared with nnx.dataclass and nnx.field, node_field, static_field, var_field or
  param_field has the constructor, defaults, factories, InitVars, __post_init__, comparison, order, hash,
  printing, dataclasses.replace/asdict and field descriptions of the same class written with the standard
  library, under every option and through inheritance. Every declared variable, whether passed, defaulted,
  made by a factory or set by __post_init__, is held in exactly the declared container with its metadata, so it
  takes part in states and pytrees accordingly. frozen and init=False behave as in the standard library.""",
  ["inputs", "programs"],
  "every declaration, option, inheritance chain and call",
  "Tests declare a handful of fields with default options.",
  [DC, PT, M], [("dataclass, field specifiers", DC), ("PytreeMeta.call", PT), ("ModuleMeta._meta_call", M)],
  "twin monitor: every class declared with nnx and with the standard library",
  "The standard library's dataclass of the same declaration, compared member by member.")

P("C34", "recurrent, generative and multi-model programs equal their plain jax twins",
  """Incremental decoding with key/value caches, prefilled or token by token, eager, jitted, functional, scanned or in
  a generation loop, gives the logits and tokens of the full causal forward, and resetting the caches restarts it.
  Recurrent networks that keep their hidden state in variables, autoencoders that capture losses and draw noise,
  hand-lifted layer stacks, and programs over several models (adversarial, distilled, averaged, low-rank adapted, optimized by
  groups) give the values, gradients (also through truncated time) and variables of the same mathematics on plain
  arrays. States go through jvp, vjp, linearize, hessian, per-example and nested derivatives, linear solvers and
  custom rules like the dictionaries of arrays they hold, and none of these programs changes a model it only
  calls functionally.""",
  ["programs", "inputs", "histories"],
  "every architecture, size, driver (eager, jit, functional, scan, while, fori, vmap) and history of calls",
  "No test runs a cache, a hidden state, two interacting models or a derivative other than grad.",
  [M, S, T, C, CTX], [("apply / update_state / pop_state / clone", M), ("State pytree", S),
                      ("jit, grad, scan", T)],
  "twin monitor: whole programs next to plain jax programs of the same mathematics",
  "Plain jax functions over dictionaries of arrays (no nnx) for every program, after every step.")


def main():
  have = [p for p in PROPS
          if os.path.exists(os.path.join(ROOT, "checks", p["pid"].lower() + ".py"))]
  with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in have:
      assert len(p["title"]) <= 80, p["pid"]
      n = p["statement"].count(". ") + 1
      assert n <= 3, (p["pid"], n)
      f.write(json.dumps({
          "id": p["pid"], "title": p["title"], "statement": p["statement"],
          "quantifier": {"over": p["over"], "text": p["quant"]},
          "why_tests_cant": p["tests"],
          "anchors": {"files": p["files"],
                      "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
      }) + "\n")
  man = {
      "version": 1,
      "setup_cmd": "/opt/venv/bin/python -c \"import jax, flax, optax\"",
      "checks": [{
          "property": p["pid"],
          "quick_cmd": f"/opt/venv/bin/python run.py {p['pid']} --tier quick",
          "thorough_cmd": f"/opt/venv/bin/python run.py {p['pid']} --tier thorough",
          "technique": "runtime monitoring: " + p["technique"],
          "level": "exploration",
          "level_note": p["note"],
      } for p in have],
      "not_applicable": [],
      "notes": ("Every case is a function of (VERIF_SEED, property, family, index); "
                "run.py Cxx --replay FILE repeats a reported one. No hooks in /repo: the monitors "
                "wrap the imported objects at run time."),
  }
  with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")


if __name__ == "__main__":
  main()
