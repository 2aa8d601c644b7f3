import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
PM="torchmps/prob_mps.py";MB="torchmps/mps_base.py";U2="torchmps/utils2.py";EM="torchmps/embeddings.py";TM="torchmps/torchmps.py";CO="torchmps/contractables.py";UT="torchmps/utils.py"
p("C01","Probabilistic MPS models are normalized",
 "For any parameter values whose amplitudes are not all zero, the probabilities (exponentials of the returned log probabilities) that a fixed-length or uniform probabilistic MPS assigns to all sequences of a given length over its discrete alphabet sum to exactly one. This holds with real or complex parameters, with or without bias matrices, with or without a discrete embedding, and for every evaluation mode.",
 ["inputs","configurations"],"all parameter values, sequence lengths, alphabet sizes, bond dimensions, real/complex, bias, embedding, evaluation mode",
 "The tests enumerate all binary strings up to length 10 for randomly initialized models; larger alphabets, non-random or trained parameters, non-zero bias and non-scalar embedding matrices are never summed.",
 [PM,MB,EM],[("amplitude and log-norm are combined as 2 log|psi| - log Z",PM+": forward"),("log_norm transfers a density matrix site by site",MB+": get_log_norm")],["ProbMPS.forward","ProbUnifMPS.forward","log_norm"])
p("C02","Log probabilities follow the Born rule",
 "The value a probabilistic MPS returns for an input sequence (indices or vectors) is exactly log(|left^T (A_1[x_1]+B) ... (A_n[x_n]+B) right|^2) - log Z, in site order, with the same cores, bias and boundary vectors used in the amplitude and in Z; the loss is minus the mean of these values over the batch. A sequence whose amplitude is exactly zero gets log probability minus infinity instead of an error or nan.",
 ["inputs","configurations"],"all parameters, all batches of discrete or vector inputs, all lengths >= 1, all dims, real/complex, bias, embedding",
 "Tests only check shapes, finiteness and sign of log probabilities, and never compare with an independently computed amplitude; zero amplitudes and trained (non-symmetric) boundaries never occur.",
 [PM,MB],[("matrix slices are selected/contracted per site",MB+": get_mat_slices"),("ordered contraction with boundary vectors",MB+": contract_matseq, slim_eval_fun"),("combination into log probability",PM+": forward, loss")],["ProbMPS.forward","ProbMPS.loss","ProbUnifMPS.forward"])
p("C03","Evaluation strategy never changes a model's output",
 "Requesting slim, parallel or default evaluation changes only cost, never the mathematical result: for the probabilistic models, the supervised MPS (open or periodic boundaries) and the sequence MPS, outputs under every supported strategy are equal for the same parameters and inputs.",
 ["inputs","configurations"],"all parameters, inputs, sizes and boundary conditions, every supported strategy flag",
 "Tests compare slim with default for random probabilistic models only; parallel versus serial evaluation of MPS and TI_MPS is never compared.",
 [PM,MB,TM,CO],[("sequential and pairwise-parallel reduction",MB+": mat_reduce_seq, mat_reduce_par, slim_eval_fun"),("serial and parallel reduction of contractables",CO+": ContractableList.reduce, MatRegion.reduce, MatRegion.__mul__")],["forward of ProbMPS, ProbUnifMPS, MPS, TI_MPS"])
p("C04","Matrix-sequence contraction equals the ordered product",
 "Contracting a sequence of matrices, given as one tensor or as a list of matrices with compatible (possibly different) shapes and any broadcastable batch dimensions, with zero, one or two boundary vectors, returns exactly their ordered matrix product; in log format the returned pair (value, log scale) satisfies value * exp(log scale) = product. Exactly zero products give zeros, and an empty list of matrices without boundary vectors is rejected with a ValueError.",
 ["inputs","configurations"],"all lengths (odd, even, zero, one), all matrix shapes, batch shapes, boundary vector combinations, real/complex, parallel_eval and log_format",
 "Tests use identity matrices, rank-one matrices, and short lists of random matrices compared up to a loose norm; general long or non-commuting batched products, zero products and log-format values of general matrices are not covered.",
 [MB,U2],[("pairwise reduction with leftover",MB+": mat_reduce_par"),("left-to-right / right-to-left sequential reduction",MB+": mat_reduce_seq"),("boundary vectors and broadcasting",MB+": contract_matseq")],["contract_matseq"])
p("C05","Log-scale splitting keeps long contractions in range",
 "In every log-format contraction the returned mantissa stays normalized independently of sequence length and of the magnitudes of the matrices: after each multiplication the running product is rescaled to a fixed entrywise 1-norm (or is exactly zero) and all removed magnitude is carried in the real, finite log scale, and the density matrix used for log Z is rescaled to unit trace at every site. So neither overflow nor underflow of the running product can occur for long sequences.",
 ["inputs"],"all sequence lengths, matrices and boundary vectors, all contraction modes",
 "Tests check one rank-one family up to length 5000; the invariant must hold at each step of every contraction.",
 [MB],[("rescaling after each product",MB+": slim_eval_fun, mat_reduce_par, mat_reduce_seq"),("unit-trace rescaling",MB+": get_log_norm")],["contract_matseq(log_format=True)","slim_eval_fun","get_log_norm"])
p("C06","Batch broadcasting follows the standard rule",
 "Broadcasting a collection of tensors over their batch dimensions yields tensors whose batch shape is the standard right-aligned broadcast of all batch shapes, whose non-batch dimensions are untouched, and whose entries are the original entries replicated along broadcast dimensions; incompatible batch shapes always raise ValueError, and bundling equal-shaped tensors stacks them in order on the requested axis.",
 ["inputs"],"all numbers of tensors, batch ranks and sizes, non-batch ranks",
 "Tests draw small shapes and compare only shapes; values and all incompatible combinations are not covered.",
 [U2],[("shape rule",U2+": shape_broadcast"),("expansion",U2+": batch_broadcast, batch_to"),("stacking",U2+": bundle_tensors")],["batch_broadcast","batch_to","shape_broadcast","bundle_tensors"])
p("C07","Embeddings are marginalized exactly in the normalization",
 "The matrix an embedding attaches to a model equals the sum (discrete domain) or the trapezoidal integral over the declared interval (continuous domain) of the outer products of embedded vectors with their conjugates, and it is replaced by a diagonal vector or a scalar only when it is diagonal or a multiple of the identity. Log Z computed with any of the three forms, real or complex, equals the log of the left/right-boundary contraction of all sites with that matrix inserted at every site.",
 ["inputs","configurations"],"all embedding functions, discrete and continuous domains, all parameters, real/complex cores, scalar/diagonal/full matrices",
 "Tests only use one-hot, scaled one-hot (scalar matrix) and one-site MLP embeddings; diagonal and full matrices with complex cores are never exercised.",
 [EM,MB,PM],[("lambda matrix",EM+": FixedEmbedding.make_lambda, TrainableEmbedding.make_lambda"),("transfer operator per lambda rank",MB+": get_log_norm")],["FixedEmbedding.lamb_mat","TrainableEmbedding.lamb_mat","get_log_norm"])
p("C08","Trainable embeddings are trained and normalized jointly",
 "A model built on a trainable embedding exposes every parameter of the wrapped module through its own parameters, and each evaluation embeds the data and normalizes with the current values of those parameters, so probabilities remain normalized after any history of parameter updates; the normalization of a freshly built model can also be queried directly.",
 ["histories","inputs"],"all wrapped modules, all sequences of parameter updates and evaluations, all domains",
 "The single test evaluates a freshly initialized one-site model once and never inspects parameters or updates them.",
 [EM,PM],[("wrapping of the module",EM+": TrainableEmbedding.__init__"),("recomputation of the lambda matrix",EM+": TrainableEmbedding.forward, make_lambda")],["TrainableEmbedding.parameters","ProbMPS.forward","ProbMPS.log_norm"])
p("C09","Built-in embedding functions match their definitions",
 "One-hot embedding maps index k to the k-th unit vector for tensors of any order; the trigonometric embedding has j-th component sqrt(binom(d-1,j)) cos(pi x/2)^(d-1-j) sin(pi x/2)^j and hence unit norm for every real x; both append exactly one trailing axis. The MLP embedding has the requested number of linear layers with the requested widths, mapping scalars to the requested output dimension, and declared data domains accept exactly the valid intervals and index ranges.",
 ["inputs","configurations"],"all data tensors, all embedding dimensions, all layer configurations, all domain bounds",
 "Tests cover one-hot on random indices and the shape of one MLP; the trigonometric embedding is not tested at all.",
 [EM],[("one-hot",EM+": onehot_embed"),("trigonometric",EM+": trig_embed, sincos_embed"),("MLP",EM+": init_mlp_embed"),("domains",EM+": DataDomain")],["onehot_embed","trig_embed","sincos_embed","init_mlp_embed","DataDomain"])
p("C10","Supervised MPS output equals its tensor-network contraction",
 "For every input size, bond dimension, label site (including the ends), boundary condition and bias setting, the supervised MPS maps a batch of inputs to the contraction, in site order, of the per-site matrices (core contracted with the feature vector, plus bias) with the output core inserted at the label site; open boundaries select the first bond basis vector on both ends and periodic boundaries take the trace. Every such configuration can be evaluated.",
 ["inputs","configurations"],"all input_dim >= 1, label_site in 0..input_dim, bond/output/feature dims, parameters, inputs, open/periodic, bias on/off",
 "The only passing tests check output shapes for one input size; values are never compared and edge label sites or short inputs are not run.",
 [TM,CO],[("site modules and their contraction",TM+": InputRegion.forward, OutputSite.forward, LinearRegion.forward"),("contraction of contractables",CO+": ContractableList.reduce, Contractable.__mul__")],["MPS.forward"])
p("C11","Outputs depend only on parameters and on the sample itself",
 "The output a non-adaptive model gives for a sample is independent of the other samples in the batch, of the batch size, and of any models or batches evaluated earlier in the process, and evaluation modifies neither the input data nor any parameter.",
 ["histories","inputs"],"all call histories across model instances and batch sizes, all batches and row permutations",
 "Tests evaluate one model with one batch size in a fixed order; the batch size shared between all contractions is process-global state that tests never vary.",
 [CO,TM,PM,MB],[("process-global batch size",CO+": Contractable.__init__"),("forward pass",TM+": LinearRegion.forward, TI_MPS.forward"),("probabilistic forward",PM+": forward")],["MPS.forward","TI_MPS.forward","ProbMPS.forward"],
 [dict(name="global batch size",meaning="batch size used to expand unbatched tensors",where=CO+": Contractable.global_bs")])
p("C12","Adaptive shifts preserve the represented function",
 "When an adaptive MPS changes the way its cores are merged, the function it computes is unchanged whenever no non-zero singular value is discarded, for every input size, label site and boundary condition, and such a change never fails as long as every split keeps at least one singular value; splitting, norm balancing and re-merging each preserve the function.",
 ["inputs","histories","configurations"],"all core values, input_dim >= 1, label sites, open/periodic, both merge offsets, any number of shifts",
 "The test runs shifts for one input size and checks only output shapes and parameter counts; function values across a shift are never compared and short regions are not run.",
 [TM,UT],[("merging",TM+": MergedLinearRegion._merge, combine, InputRegion._merge"),("unmerging and rescaling",TM+": MergedLinearRegion._unmerge, MergedInput._unmerge, MergedOutput._unmerge, rescale_norm")],["MPS.forward in adaptive mode"])
p("C13","Adaptive bookkeeping tracks the shifts",
 "An adaptive MPS shifts its merge state exactly when the number of inputs seen since the last shift bookkeeping has reached the merge threshold, alternating between the two offsets and carrying over the excess count; its parameters keep their identity and shapes across shifts so optimizers stay valid, and after a shift the recorded bond dimensions and singular values of the split bonds are the ones produced by the splitting, at the right bond positions, the others being unchanged.",
 ["histories","configurations"],"all sequences of batch sizes, thresholds, input sizes, label sites",
 "The test uses one fixed batch size dividing the threshold, and only checks the offset and number of parameters.",
 [TM],[("counter and shift",TM+": MergedLinearRegion.forward"),("bond lists",TM+": MPS.forward, MergedLinearRegion._unmerge"),("in-place update",TM+": MergedLinearRegion._merge")],["MPS.bond_list","MPS.sv_list","linear_region.offset","MPS.parameters"],
 [dict(name="input counter",meaning="inputs since last shift",where=TM+": MergedLinearRegion.input_counter")])
p("C14","SVD splitting is an exact truncated factorization",
 "Splitting a tensor across any partition of its indices returns two tensors, with the requested index orders and padded bond size, whose contraction equals the tensor restricted to its kept singular triples; the reported bond dimension counts exactly the leading singular values that are not below the cutoff (within the size limit), discarded triples are exactly zeroed, singular values go to the requested side with the other side orthonormal on the kept bond, and the supplied vector receives the singular values.",
 ["inputs","configurations"],"all tensors, index partitions and orders, cutoffs, size limits smaller or larger than the rank, both sides",
 "The test script checks only output shapes for five index patterns.",
 [UT],[("permutation, SVD, truncation, padding, merge",UT+": svd_flex")],["svd_flex"])
p("C15","Sequence MPS contracts each sequence, independent of padding",
 "The translation-invariant sequence MPS maps every sequence of any length to initial vector times the ordered product of (core contracted with feature vector, plus bias) times the terminal matrix. When sequences of different lengths are batched in a list, each one's output equals the output for that sequence alone, whether inputs are raw or pre-embedded, and length mixes that cannot be padded neutrally are rejected.",
 ["inputs","configurations"],"all sequences and lengths >= 1, raw or embedded, tensor or list inputs, bias/ends/parallel settings, custom feature maps",
 "The test script checks only output shapes and existence of gradients at near-zero cores, where padding errors are invisible.",
 [TM,CO],[("formatting and padding",TM+": TI_MPS.format_input, embed_input"),("contraction",TM+": TI_MPS.forward, InitialVector, TerminalOutput")],["TI_MPS.forward"])
p("C16","Contractable products implement tensor contraction",
 "Multiplying two contractables contracts the right bond of the left operand with the left bond of the right operand, batchwise, keeping all other indices, whichever operand's method handles the product; multiplying by a batch of scalars scales every entry and keeps the kind of object; reducing a matrix region or a list of contractables gives the ordered product of its members for any length, serially or in parallel. Tensors without batch index are replicated over the current batch.",
 ["inputs","configurations"],"all contractable kinds and operand orders, sizes, region lengths, list compositions that occur in models",
 "The test script checks only the output shape of one matrix region reduction.",
 [CO],[("generic product",CO+": Contractable.__mul__, __rmul__"),("regions",CO+": MatRegion.__mul__, MatRegion.reduce"),("lists",CO+": ContractableList.reduce, __mul__"),("scalars",CO+": Scalar.__mul__")],["products and reduce() of contractables"])
p("C17","Initializers produce the documented tensors",
 "Every initializer returns a tensor of the requested shape equal to its documented deterministic part (identity slices, identity truncated to the initial dimension capped at the smaller bond, or zero) plus noise that is exactly the documented multiple of fresh standard normal samples, with a random phase on complex tensors; initial vectors, terminal matrices and fresh models have the documented shapes, contents and trainability.",
 ["inputs","configurations"],"all shapes, bond layouts, noise levels, initial dimensions, complex flags, fixed/trainable flags",
 "Tests check only shapes, or zero-noise identity products; noise scale, caps and trainability are not covered.",
 [MB,UT,TM,PM,U2],[("core initializers",MB+": near_eye_init, normal_init"),("generic initializer",UT+": init_tensor"),("model construction",TM+": MPS.__init__, InitialVector, TerminalOutput; "+PM+": __init__")],["near_eye_init","normal_init","init_tensor","InitialVector","TerminalOutput"])
p("C18","Data utilities keep labels attached to their data",
 "One-hot conversion of labels sets exactly the labelled entry of each row; joint shuffling applies one and the same permutation to data and labels; the horizontal/vertical stripe generator yields every non-trivial stripe pattern exactly once per orientation, labelled by its orientation, split into disjoint training (75%) and test (25%) sets.",
 ["inputs"],"all label batches and class counts, all data sets, all image sizes >= 2",
 "No test touches these functions.",
 [UT],[("one-hot",UT+": onehot"),("joint shuffle",UT+": joint_shuffle"),("stripes",UT+": load_HV_data")],["onehot","joint_shuffle","load_HV_data"])
p("C19","Models are differentiable in all trainable parameters",
 "Every forward pass is connected by differentiable operations to every parameter that is registered as trainable and takes part in the contraction, and to floating-point inputs, so losses can be backpropagated through any model in any evaluation mode as through a standard layer; fixed tensors are excluded from the parameters.",
 ["configurations","inputs"],"all models, configurations and evaluation modes",
 "Tests check that gradients are not None for random probabilistic models; detached or partially connected paths for MPS, adaptive MPS and other flags are not covered.",
 [PM,TM,MB,EM],[("forward passes",PM+": forward; "+TM+": forward"),("parameter registration",TM+": InputRegion, InitialVector, TerminalOutput")],["parameters()","backward()"])
p("C20","Paths and feature maps route the intended data",
 "An MPS with a path evaluates exactly as the path-less MPS on the input whose i-th site is the original site path[i], for list or tensor paths; custom feature maps are applied to each scalar independently and in place of the default map x -> (x, 1-x), pre-embedded inputs are used unchanged, maps of the wrong size are rejected on registration, and wrongly sized inputs are rejected.",
 ["inputs","configurations"],"all paths (with repeats or skips), feature maps, raw and embedded batches",
 "A test script covers only output shapes with one feature map; paths are never tested.",
 [TM],[("path",TM+": MPS.forward"),("embedding",TM+": MPS.embed_input, register_feature_map, TI_MPS.embed_input")],["MPS.forward","MPS.embed_input","register_feature_map"])
open('properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
