IN, CF, HI, PR, FA, CR = "inputs", "configurations", "histories", "programs", "fault_sequences", "crash_points"
BOUND = "Proved over exact reals/integers for all sizes and values; numpy operations enter through their contracts. Residual: float rounding, GPU back ends. "
PROPS = [
 dict(id="C01", title="Parameters and gradients are stored, accumulated and updated in isolation",
  statement="Every parameter and gradient written to a layer reads back with exactly that value until the same layer's same parameter is written again; gradients added repeatedly accumulate to their sum, and no write ever shows up in another parameter, another layer, or an array that was passed in as an increment. Finishing an update hands the optimizer each layer's every parameter with its own gradient exactly once, stores the result, and leaves that gradient at zero.",
  over=[HI, CF, IN], all="all sequences of set/get/increment/finish operations, any number of layers, parameters and shapes",
  why="tests set one or two parameters on one layer; aliasing and interleaving between layers and names needs arbitrary operation orders",
  files=["thinc/backends/_param_server.py", "thinc/model.py", "thinc/optimizers.py"],
  mech=[("ParamServer.get_param/set_param/get_grad/set_grad/inc_grad", "thinc/backends/_param_server.py"), ("Model.*_param/*_grad/finish_update", "thinc/model.py")],
  note=BOUND),
 dict(id="C02", title="A model's dimensions, attributes and references cannot be silently corrupted",
  statement="A dimension that has been set keeps its value: setting it to a different size raises, unset or undeclared dimensions raise instead of returning a guess, and declared sizes agree with the shapes of the parameters after initialisation. References may only point into the model's own tree, and reading a dimension, attribute or reference returns exactly what was last stored. Layer identifiers are unique, so equal names never make two layers share state.",
  over=[HI, IN, CF], all="all sequences of set/get/has operations and all sizes",
  why="tests check a few fixed sequences; the guarantee is over arbitrary interleavings of operations",
  files=["thinc/model.py"], mech=[("Model.get_dim/set_dim/has_dim/maybe_get_dim/get_ref/set_ref", "thinc/model.py")], note=BOUND),
 dict(id="C03", title="The optimizer applies exactly its documented update rule to every parameter",
  statement="For any weights, gradients and hyper-parameters, one optimizer call produces the documented result of SGD or Adam (with bias correction), including gradient clipping, L2 added to the gradient or decoupled, and parameter averaging, reading every hyper-parameter from its schedule at the current step. State kept for one parameter key never influences another key, and the step counter advances exactly when a step is declared.",
  over=[IN, HI, CF], all="all weights, gradients, hyper-parameters and step histories",
  why="tests compare a handful of fixed vectors; formula identity over all values and histories is out of reach",
  files=["thinc/optimizers.py", "thinc/backends/ops.py"], mech=[("Optimizer.__call__/_adam/_sgd/step_schedules", "thinc/optimizers.py"), ("Ops.adam/clip_gradient/update_averages", "thinc/backends/ops.py")], note=BOUND),
 dict(id="C04", title="Every schedule returns its documented value at every step",
  statement="Each built-in schedule returns the documented closed formula of the step for every parameter choice, stays within its documented bounds, and is a pure function of the step (the plateau schedule: of the history of scores). Negative steps are rejected, and the legacy generator form yields the values of steps 0, 1, 2, ....",
  over=[IN, HI, CF], all="all steps, all parameters, all call orders",
  why="tests list the first few values for one parameter setting",
  files=["thinc/schedules.py", "thinc/schedule.py"], mech=[("schedule functions", "thinc/schedules.py"), ("Schedule.__call__/to_generator", "thinc/schedule.py")], note=BOUND + "slanted_triangular: at least one warm-up step."),
 dict(id="C05", title="Context managers undo their changes on every exit",
  statement="Leaving any of the library's context blocks, normally or through any exception raised inside it, restores exactly the state from before it was entered: the active backend, the operator overloads, the parameters temporarily swapped in, the data-validation switch and the temporary files. Blocks may be nested, and entering a block that fails leaves the state unchanged.",
  over=[FA, HI, PR], all="all nestings and all exit paths, including exceptions thrown at any point inside a block",
  why="tests only leave blocks normally; exception exits and nesting are not enumerated",
  files=["thinc/model.py", "thinc/backends/__init__.py", "thinc/util.py", "thinc/shims/pytorch.py"], mech=[("use_ops", "thinc/backends/__init__.py"), ("Model.use_params/define_operators", "thinc/model.py"), ("data_validation/make_tempfile", "thinc/util.py")],
  note="Proved for arbitrary block bodies (normal or exceptional exit at the yield point)."),
 dict(id="C06", title="Each activation computes its formula and back-propagates its exact derivative",
  statement="Every activation function returns its documented formula for each element of arrays of any size, and its backward function multiplies the incoming gradient by the derivative of that formula (for softmax, by its Jacobian). The in-place variants return the same values as the ordinary ones, and the ordinary ones leave their inputs unmodified.",
  over=[IN, CF], all="all array shapes and all element values away from the kinks of piecewise-linear functions",
  why="tests compare samples numerically with tolerances; identity for all values needs a proof",
  files=["thinc/backends/ops.py", "thinc/backends/numpy_ops.pyx", "thinc/backends/cpu_kernels.hh"], mech=[("activation methods and backprop_*", "thinc/backends/ops.py"), ("mish/relu kernels", "thinc/backends/numpy_ops.pyx")], note=BOUND),
 dict(id="C07", title="Each layer's backward pass is the exact gradient of its forward pass",
  statement="For every layer in the library, with any parameters, input and incoming gradient, the backward callback returns the vector-Jacobian product of what the forward pass computed, and adds exactly the parameter gradients of that product to the layer's gradient store. Running forward or backward never changes the layer's parameters nor the arrays passed in by the caller.",
  over=[IN, CF], all="all layer sizes, batch sizes, parameter values, inputs and gradients",
  why="tests check single shapes with loose finite differences for some layers only",
  files=["thinc/layers"], mech=[("forward/backprop of each layer", "thinc/layers/*.py")], note=BOUND),
 dict(id="C08", title="Combinators compose forward passes and route gradients back exactly",
  statement="Chaining, concatenating, adding, cloning, residual, mapping and similar combinators compute the composition of their parts for any number of parts, and their backward pass runs the parts' backward passes in reverse with the gradient each part is owed, summing where inputs are shared. No part sees an array that another part has altered in place, and the caller's input and gradient are left unmodified.",
  over=[IN, CF, PR], all="all numbers of parts, sizes and inner layers with arbitrary linear behaviour (including ones that return their input unchanged)",
  why="tests combine two or three ordinary layers; aliasing shows only with layers that return their input or retain arrays",
  files=["thinc/layers/chain.py", "thinc/layers/concatenate.py", "thinc/layers/add.py", "thinc/layers/residual.py", "thinc/layers/map_list.py", "thinc/layers/tuplify.py", "thinc/layers/siamese.py", "thinc/layers/clone.py"],
  mech=[("forward/backprop", "thinc/layers/*.py")], note=BOUND),
 dict(id="C09", title="Sequence formats convert back and forth without losing or moving a value",
  statement="Flattening, padding and packing lists of sequences and converting back returns the original sequences with every value in place, for any number of sequences of any lengths, including empty ones. Layers that wrap another layer in such a conversion hand it the data and the gradients in the promised layout and undo the conversion on the way out.",
  over=[IN, CF], all="all batch sizes, lengths, widths and input formats",
  why="tests use a few small batches; the layout identities must hold for every combination of lengths",
  files=["thinc/backends/ops.py", "thinc/layers/with_array.py", "thinc/layers/with_padded.py", "thinc/layers/with_list.py", "thinc/layers/with_ragged.py"],
  mech=[("flatten/unflatten/pad/unpad/list2padded/padded2list", "thinc/backends/ops.py")], note=BOUND),
 dict(id="C10", title="Window extraction takes the right neighbours and its backward is its transpose",
  statement="The sliding-window operation gives each position the concatenation of its neighbours within the window, with zeros outside its own sequence, and the backward operation sends each window entry's gradient back to exactly the position it came from, summing overlaps. Positions never mix across sequence boundaries.",
  over=[IN], all="all window sizes, sequence lengths, batch sizes and widths",
  why="tests use windows of one or two on tiny inputs",
  files=["thinc/backends/ops.py", "thinc/backends/numpy_ops.pyx", "thinc/backends/cpu_kernels.hh", "thinc/layers/expand_window.py"], mech=[("seq2col/backprop_seq2col", "thinc/backends/numpy_ops.pyx")], note=BOUND + "Window sizes are non-negative; the code path for CUDA is not covered."),
 dict(id="C11", title="Sequence reductions compute their statistic and back-propagate its transpose",
  statement="Sum, mean, max, first and last pooling over ragged batches return that statistic of every sequence separately, and their backward passes distribute each sequence's gradient to exactly the rows that contributed, in the right share. Lengths that do not fit the data are rejected rather than read or written out of bounds.",
  over=[IN], all="all batches of sequences, lengths and widths",
  why="tests use one or two length vectors", files=["thinc/backends/ops.py", "thinc/backends/numpy_ops.pyx", "thinc/backends/cpu_kernels.hh"],
  mech=[("reduce_*/backprop_reduce_*", "thinc/backends")], note=BOUND),
 dict(id="C12", title="Native kernels compute their contract and never touch memory out of bounds",
  statement="The compiled CPU operations for matrix products, maxout, gather-add, scatter-add, padding, hashing and optimisation return the documented result and, for every argument they accept, read and write only inside the arrays they were given; arguments that would need anything else are rejected with an error.",
  over=[IN], all="all shapes, index values (including negative and too large) and values",
  why="tests only pass valid indices; out-of-range accesses go unnoticed until they crash",
  files=["thinc/backends/numpy_ops.pyx", "thinc/backends/cpu_kernels.hh", "thinc/backends/ops.py"], mech=[("kernels", "thinc/backends/cpu_kernels.hh")], note=BOUND),
 dict(id="C13", title="Minibatching partitions the data in order",
  statement="Splitting one or several parallel datasets into minibatches yields every item exactly once, in order unless shuffling is requested, with each batch as large as the size schedule demands except possibly the last. Parallel sequences stay aligned item by item, and shuffling only permutes the items.",
  over=[IN, CF, HI], all="all dataset sizes, batch sizes, size schedules and input kinds",
  why="tests cover fixed sizes", files=["thinc/backends/ops.py"], mech=[("Ops.minibatch/multibatch/_get_batch", "thinc/backends/ops.py")], note=BOUND + "Batch sizes are at least one."),
 dict(id="C14", title="Saving and loading a model reproduces its full learned state",
  statement="Serialising any model and loading the result into a model of the same structure restores every dimension, parameter, attribute and shim of every layer exactly, and loading data from a different structure is refused with an error. Loading never leaves values from one layer in another.",
  over=[IN, CF, PR], all="all model trees, with any set or unset dimensions, parameters and attributes",
  why="tests round-trip a few concrete models", files=["thinc/model.py"], mech=[("Model.to_dict/from_dict/to_bytes/from_bytes/can_from_dict", "thinc/model.py")], note=BOUND + "msgpack encoding enters through its contract."),
 dict(id="C15", title="Tree traversal and node surgery visit and replace exactly the right nodes",
  statement="Walking a model visits every reachable node exactly once in the documented order, even when layers are shared. Replacing or removing a node affects every place the node was used, including references, and nothing else.",
  over=[PR, CF], all="all model graphs, including shared layers, and any choice of node",
  why="tests use a few small trees", files=["thinc/model.py"], mech=[("Model.walk/replace_node/remove_node/set_child_attrs", "thinc/model.py")], note="Checked over every model graph up to a stated size where recursion prevents a general proof."),
 dict(id="C16", title="A copied model is equal and independent",
  statement="Copying a model yields a tree with the same dimensions, parameters, gradients, attributes and sharing structure, in which nothing mutable is shared with the original: no later change to either is visible in the other, and the layers get fresh identities.",
  over=[PR, HI, CF], all="all model trees and subsequent operations", why="tests copy one or two models",
  files=["thinc/model.py"], mech=[("Model.copy/_copy", "thinc/model.py")], note=BOUND),
 dict(id="C17", title="Loss objects return the true loss and its exact gradient",
  statement="Each loss function returns the documented loss value and gradient for any guesses and targets, normalised as configured, and the gradient is zero when the guess equals the target. Missing targets contribute nothing, and the caller's arrays are never modified.",
  over=[IN, CF], all="all batch sizes, class counts, values and label encodings", why="tests fix a few batches",
  files=["thinc/loss.py"], mech=[("CategoricalCrossentropy/SequenceCategoricalCrossentropy/L2Distance/CosineDistance", "thinc/loss.py")], note=BOUND),
 dict(id="C18", title="Hashed and sparse features always address valid rows and sum them correctly",
  statement="Hash embeddings map every key to rows inside the table and return the sum of those rows, and equal keys always give equal vectors; the sparse linear layer computes the weighted sum of its hashed features for every example. The backward pass adds the gradient to exactly the rows that were read, with multiplicity.",
  over=[IN], all="all keys, table sizes, batch sizes and values", why="tests hash a few keys",
  files=["thinc/layers/hashembed.py", "thinc/layers/sparselinear.pyx", "thinc/backends/ops.py"], mech=[("HashEmbed forward", "thinc/layers/hashembed.py"), ("SparseLinear", "thinc/layers/sparselinear.pyx")], note=BOUND),
 dict(id="C20", title="Id remapping and de-duplication layers are exact and side-effect free",
  statement="Remapping layers send every known key to its table entry and every other key to the default, for any table and column, and never share state between layers. De-duplicating layers give exactly the result the wrapped layer would give on the full batch, with gradients summed over the duplicates.",
  over=[IN, CF], all="all tables, keys, columns, batches with any pattern of repeats", why="tests use one table",
  files=["thinc/layers/remap_ids.py", "thinc/layers/premap_ids.pyx", "thinc/layers/uniqued.py"], mech=[("remap_ids_v2.forward", "thinc/layers/remap_ids.py"), ("uniqued.forward", "thinc/layers/uniqued.py")], note=BOUND),
 dict(id="C22", title="Padded and ragged batches index consistently with the data they hold",
  statement="Selecting sequences from a padded or ragged batch by position, slice or index array returns precisely those sequences with matching lengths, and copying or converting them preserves data, lengths and order. The cumulative positions reported for a ragged batch are those of its sequences.",
  over=[IN], all="all batches and index expressions", why="tests index a few fixed batches",
  files=["thinc/types.py"], mech=[("Padded.__getitem__/Ragged.__getitem__", "thinc/types.py")], note=BOUND),
]
NOT_APPLICABLE = []
