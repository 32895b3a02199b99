import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
G='pygsp/graphs/graph.py'; FI='pygsp/filters/filter.py'; FO='pygsp/graphs/fourier.py'; DI='pygsp/graphs/difference.py'; IO='pygsp/graphs/_io.py'; LA='pygsp/graphs/_layout.py'; AP='pygsp/filters/approximations.py'; RE='pygsp/reduction.py'; LE='pygsp/learning.py'; PL='pygsp/plotting.py'; UT='pygsp/utils.py'; NN='pygsp/graphs/nngraphs/nngraph.py'; FE='pygsp/features.py'
p('C01','Arguments passed by the caller are never modified in place',
 "No public constructor, method or function of the library writes into an array, sparse matrix, list, dict or set that its caller passed in: the argument has the same contents after the call, whether the call returns or raises. This holds also when the write would happen through a view, a conversion that shares memory, a helper function, or an attribute in which the argument was stored.",
 ['inputs','histories'],'every public entry point, every argument, every call sequence',
 'The tests pass fresh literals and almost never compare an argument before and after the call; whether a write reaches it depends on the dtype, the storage format, the contiguity and the option values used.',
 [G,NN,'pygsp/graphs/randomring.py','pygsp/graphs/stochasticblockmodel.py',LA,UT,LE,AP,FI,RE],
 [('defensive copies before writes (y.copy(), np.sort, q.astype, Xout * scale)','learning.regression_tikhonov, RandomRing.__init__, StochasticBlockModel.__init__, NNGraph.__init__'),('private copy before removing explicit zeros','Graph.__init__')],
 observe=['contents of every argument before and after a call'])
p('C02','Queries leave graphs and filter banks unchanged',
 "Every operation that is not documented as changing a graph or a filter bank (filtering, transforms, evaluating, energies, indexing and combining banks, subgraphs and components, exporting and saving, plotting, features, learning, reduction of a graph) leaves all the public attributes of every graph and filter bank it works on as they were: weights, Laplacian and its type, coordinates, signals, plotting options, eigenvalues and eigenvectors already computed. The only thing that may happen is that a lazily computed quantity goes from not available to available, that an estimate of the largest eigenvalue is replaced by the exact value when the eigenvalues get computed, and that an operation records a result its documentation says it records (the reduction information of a multiresolution level, a spectrogram).",
 ['inputs','histories'],'every non-mutating operation, every graph and filter bank, every history before it',
 'The tests look at return values on freshly built graphs; they do not compare the complete object state around each operation.',
 [G,FO,DI,IO,FI,PL,FE,LE,RE,'pygsp/graphs/linegraph.py'],
 [('operations return new arrays and graphs','whole package'),('only the documented mutators store attributes','Graph.set_signal, set_coordinates, compute_laplacian, compute_fourier_basis, estimate_lmax, compute_differential_operator')],
 state=[('lazily computed quantities','lmax, U, e, coherence, D, A, d, dw, connectedness, directedness',G)])
p('C03','Cached quantities never outlive the Laplacian or request they belong to',
 "After any sequence of operations, the eigenvalues, eigenvectors, coherence, largest eigenvalue and differential operator a graph reports are those of its current Laplacian: switching the Laplacian type invalidates every remembered quantity that was derived from the previous one, including what is remembered about how it was obtained. A remembered result is never returned for a request that differs (another estimation method, more eigenvectors, other points or arguments).",
 ['histories'],'every interleaving of Laplacian switches, computations and reads',
 'Staleness needs a particular order of at least three operations; the tests switch the Laplacian once and look at a single attribute.',
 [G,FO,DI,FI,'pygsp/filters/modulation.py'],
 [('invalidate on switch','Graph.compute_laplacian'),('guards keyed on the request','Graph.estimate_lmax, FourierMixIn.compute_fourier_basis')],
 state=[('_lmax, _lmax_method, _U, _e, _coherence, _D','memoised quantities derived from the Laplacian',G)])
p('C04','An operation that fails leaves the graph or filter bank unchanged',
 "When a public operation on an existing graph or filter bank rejects its input or gives up (it raises), all the state of the object, including its lazily computed quantities, is the same as before the call (a lazily computed quantity of which the computation had completed may have become available); calling it again fails in the same way instead of returning something half-computed.",
 ['inputs','histories','fault_sequences'],'every operation that stores something in an existing object, every path on which it raises',
 'The tests check that an exception is raised, never what the object looks like afterwards; numerical failures are hard to provoke from a test.',
 [G,FO,DI,LA,IO],
 [('validate and compute into locals, assign last','Graph.compute_laplacian, Graph.estimate_lmax, FourierMixIn.compute_fourier_basis, Graph.set_signal')])
p('C05','Option strings: documented values are accepted, anything else is rejected',
 "For every parameter that selects a mode by name (Laplacian type, estimation and filtering method, symmetrization, neighbour search and distance type, coordinates kind, sampling, point-cloud type, plotting and I/O backend, file format, reduction method), every value the documentation lists is accepted. Any other value raises an error, on every path and with every combination of the other options; it is never silently treated as some default.",
 ['inputs','configurations'],'every string value of every mode parameter, every combination with other options',
 'Tests try one or two bad strings for some parameters with default values of the others; the set of strings is infinite and rejection may be skipped under some other option.',
 [G,FO,FI,UT,NN,LA,IO,PL,RE,'pygsp/graphs/swissroll.py','pygsp/graphs/nngraphs/twomoons.py','pygsp/graphs/nngraphs/cube.py','pygsp/graphs/nngraphs/sphere.py'],
 [('if/elif chains ending in raise','everywhere a mode is selected')])
p('C06','Randomness is controlled by the seed and by nothing else',
 "Everything that takes a seed (graph models, layouts, sparsification) gives the same result for the same arguments and the same seed, including seed 0, whatever was called before and whatever the state of the global generators of Python and NumPy. Every random draw behind such a result comes from a generator built from that seed. No operation of the library draws from, seeds or restores a global generator.",
 ['inputs','histories'],'every seed, every model and option, every history of random draws in the process',
 'Tests compare two draws for a few models with seed=42 and default options; draws on rarely used paths and seeds that are falsy are not exercised.',
 ['pygsp/graphs/stochasticblockmodel.py','pygsp/graphs/community.py',LA,'pygsp/graphs/randomregular.py','pygsp/graphs/nngraphs/sensor.py','pygsp/graphs/nngraphs/cube.py','pygsp/graphs/nngraphs/sphere.py','pygsp/graphs/nngraphs/twomoons.py',RE],
 [('np.random.default_rng(seed) / RandomState(seed) local to the call','all random models')])
p('C07','Every accepted parameter is honoured',
 "Each parameter a public constructor, method or function accepts has an effect: it reaches the result, the stored configuration or a check, in each mode in which it is meaningful, and is not dropped when a helper or a base class does the work, overwritten before it is used, or exchanged with another one. A configuration attribute of the same name as a constructor parameter reports the value that was passed (or the documented default it stands for).",
 ['inputs','configurations'],'every parameter of every public callable, every value and every mode of the other options',
 'The tests mostly use default values, for which an ignored or overwritten parameter makes no difference.',
 [G,FO,FI,NN,RE,FE,LE,PL,'pygsp/graphs','pygsp/filters'],
 [('parameters forwarded by name to helpers and base classes','all constructors, Filter.analyze/synthesize/localize/compute_frame, Graph.plot')])
p('C08','Results do not depend on the unit of the edge weights',
 "Multiplying all the edge weights of a graph by the same positive number multiplies the weighted degrees, combinatorial Laplacian, its eigenvalues and the largest-eigenvalue estimates by that number, the combinatorial differential operator by its square root, and leaves the normalized Laplacian, its spectrum and differential operator and the eigenvectors unchanged. Filter banks designed from a graph's spectrum have the same response at the corresponding frequencies, and no such computation compares or adds a quantity in the unit of the weights with an absolute constant.",
 ['inputs'],'every graph, every positive rescaling of its weights',
 'Tests use weights of order one; an absolute tolerance or offset only matters for very small or very large weights.',
 [G,FO,DI,AP,'pygsp/filters'],
 [('relative tolerances','Graph.estimate_lmax, FourierMixIn.compute_fourier_basis'),('kernels normalised by lmax','all filter designs')])
p('C09','Laplacians, degrees and symmetrization hold for any adjacency matrix',
 "For every adjacency matrix, directed or not, with or without self-loops, isolated vertices or negative weights, the Laplacian of the graph is a symmetric matrix; the combinatorial one is the diagonal of the weighted degrees minus the average of the weights and their transpose, and its rows sum to zero; the normalized one is the combinatorial one scaled on both sides by the inverse square root of the weighted degrees (zero on isolated vertices). Degrees and weighted degrees are the averages of those of rows and columns, and a graph is undirected exactly when its weights are symmetric. Symmetrizing a dense or sparse matrix gives a symmetric one with every method: the average or maximum of opposite entries, a mirrored triangle, or opposite entries copied into zeros (and averaged when both are non-zero).",
 ['inputs'],'every square adjacency matrix, every Laplacian type, every symmetrization method, dense and sparse',
 'Symmetry and zero row sums are checked on a handful of graphs, nearly all of them undirected.',
 [G,UT],
 [('degree and symmetrized weights built from the same average of W and its transpose','Graph.compute_laplacian, Graph.dw, utils.symmetrize')])
p('C10','Signals of the wrong length are always rejected',
 "Every operation that takes a signal on the vertices or on the edges of a graph (setting a signal, Fourier transforms, filtering, analysis and synthesis with every filter bank and method, gradient, divergence, Dirichlet energy, pyramid analysis, signal plotting) raises an error when its first dimension (for plotting: after dimensions of length one are dropped) is not the number of vertices, respectively edges, before using the values, and before any broadcasting can make it fit. No option or path bypasses the check.",
 ['inputs','configurations'],'every signal shape, every operation taking a signal, every option',
 'Tests check one wrong length for a few operations; broadcasting makes wrong lengths such as 1 pass silently on unchecked paths.',
 [G,FO,DI,FI,'pygsp/filters/modulation.py','pygsp/filters/gabor.py',RE,PL],
 [('first-dimension check before use','Graph._check_signal, DifferenceMixIn.div, plotting._plot_graph')])
p('C11','Each filter of a bank has its own parameters and a pointwise response',
 "The i-th filter of a bank evaluates with the i-th parameter set (scale, shift, time, eigenvalue) whenever it is evaluated, also after the bank was built, indexed, combined with another one or inverted. The response at a frequency depends only on that frequency: not on which other frequencies are evaluated in the same call, on their order, or on earlier evaluations.",
 ['inputs','histories'],'every filter design, every number of filters, every set of evaluation points and every evaluation order',
 'Tests evaluate banks at the full set of eigenvalues with default parameters, where a response that depends on the other points still looks right.',
 ['pygsp/filters',FI],
 [('loop variables bound as defaults or partial arguments','all filter designs'),('elementwise kernels','all filter designs')])
p('C12','Optional dependencies are only needed by the features that use them',
 "Importing the package and using any feature that does not need an optional library (NetworkX, graph-tool, matplotlib, pyqtgraph, PyUNLocBoX, scikit-image, pyflann, scikit-learn) works when that library is missing or broken. A feature that needs one raises an ImportError naming it, and the features with an automatic fallback fall back.",
 ['configurations','fault_sequences'],'every subset of the optional libraries installed or broken',
 'The test environment has one fixed set of libraries; a missing or broken one is never simulated.',
 [IO,PL,NN,LE,'pygsp/optimization.py','pygsp/graphs/nngraphs/imgpatches.py'],
 [('imports inside guarded helper functions that raise ImportError','_import_networkx, _import_graphtool, _import_plt, _import_qtg, _import_pfl, _import_pyunlocbox')])
p('C13','No operation can stop on a dangling name, attribute or call signature',
 "Whatever path an operation takes, each name it uses is bound before use, each attribute it reads on the library's own objects exists on them, each call to the library's own functions and classes matches their signature, what they return is unpacked into as many names as it has values, and each function it uses of NumPy, SciPy or the standard library exists in the supported versions. Users never see a NameError, UnboundLocalError, AttributeError or TypeError caused by the library's own wiring.",
 ['inputs','configurations'],'every path of every operation, including rarely used options and error paths',
 'Python resolves names when a line runs; tests run a fraction of the paths.',
 ['pygsp'],
 [('plain Python name and attribute resolution','whole package')])
p('C14','Failures are reported, never swallowed',
 "When the library detects a problem it reports it: an error object that is built is raised, what is raised is an exception, what is logged as an error is also raised, a handler never discards an error it did not expect, the convergence status an iterative linear solver returns is examined, and no computation is silently skipped because its lazy result is thrown away or because a method is tested instead of called. No check of a caller's argument disappears when Python runs with optimisation (assertions only check internal consistency).",
 ['inputs','fault_sequences'],'every error path and every call with a status or lazy result',
 'A swallowed error is invisible to a test that does not provoke the fault; most error paths have no test.',
 [LA,RE,LE,AP,IO,'pygsp/graphs/community.py'],
 [('raise statements, narrow handlers','whole package')])
p('C15','Exports, imports and files agree with one another',
 "What the exporters write is what the importers read, for both interchange libraries and all file formats: every vertex, connected or not, and each edge once with its direction, its weight, not rounded, under the attribute name the importers look for by default, and every signal under a name from which the importer restores it with its columns in order. Loading and saving accept the same formats and backends, and dispatch each to the matching library functions.",
 ['inputs','configurations'],'every graph, directed or not, every set of signals and every format and backend',
 'Round trips are tested for few graphs, signals of one or two columns and, here, for one of the two libraries only.',
 [IO],
 [('matching tables in to_* and from_*, load and save','graphs/_io.py')])
p('C16','Plotting draws where asked and keeps track of what it opens',
 "Each plotting operation draws on the axis it is given and opens no window then; when none is given, the one figure or widget it creates is recorded, so that closing all plots closes every one of them, once. Figure and axis are returned to the caller, and options given to one plot have no effect on the following ones.",
 ['inputs','histories'],'every plotting call, option and sequence of plots',
 'The tests call the plotting functions without looking at which figures exist, and the interactive backend is not installed.',
 [PL,G,FI],
 [('figure/axis management in one decorator','plotting._plt_handle_figure, plotting.close_all')],
 state=[('_plt_figures, _qtg_widgets','figures and widgets opened so far',PL)])
p('C17','Using the library changes nothing outside its own objects',
 "No operation changes process-wide state: NumPy and Python error, warning, print and random settings, matplotlib configuration, environment variables, the root logger, the working directory and module attributes stay as they were, nothing is written to standard output (other than by optional third-party solvers asked to), and files are only written by saving. Importing the package does not configure anything global either.",
 ['inputs','histories'],'every operation, any history',
 'Tests do not snapshot process-wide settings around the calls.',
 ['pygsp'],
 [('local generators, loggers and figures only','whole package')])
p('C18','Signal operators are linear in the signal',
 "The Fourier transform and its inverse, gradient, divergence, filtering, analysis, synthesis, and polynomial approximations of filters (Chebyshev) are linear in the signal, for every graph, filter bank and option: no offset, normalisation, clipping, rounding, thresholding or dependence on the magnitude of the signal. The Dirichlet energy is quadratic in it, and interpolation and Tikhonov-type smoothing operators are linear in the known values.",
 ['inputs'],'every signal (all magnitudes and signs), every graph, every operator and option',
 'Linearity quantifies over all pairs of signals and scalars; tests apply the operators to a few signals of order one.',
 [FO,DI,FI,AP,G,RE,LE],
 [('matrix products, sums and reshapings only on the way of the signal','gft, igft, grad, div, Filter.filter, cheby_op, cheby_rect, interpolate')])
p('C19','Transforms come in adjoint pairs and the spectral path uses them consistently',
 "The Fourier transform is the adjoint of the inverse transform and the gradient that of the divergence, for any basis and any graph: each pair applies one operator and its (conjugate) transpose, contracting the vertex axis on one side and the frequency or edge axis on the other. The differential operator factors the Laplacian it belongs to (each edge has two entries of opposite signs, whose squares are its weight, divided by the weighted degree of that endpoint for the normalized Laplacian, and halved for directed graphs). The Dirichlet energy is the quadratic form of the Laplacian, and exact filtering is transform, pointwise product with the response at the graph's eigenvalues, and inverse transform.",
 ['inputs'],'every graph, real or complex basis, every signal',
 'Tests use real bases of undirected graphs, for which a missing conjugation is invisible, and square operators, for which a wrong axis can go unnoticed.',
 [FO,DI,G,FI],
 [('np.conjugate(U) contracted on axis 0 / U on axis 1; D.T and D','gft, igft, grad, div')])
p('C20','The scalable path stays sparse and never needs the eigendecomposition',
 "Building a graph, its Laplacian and differential operator, estimating the largest eigenvalue, and filtering, analysing, synthesising or localising with the default polynomial method never compute the eigenvectors of the graph and never turn the weights, the Laplacian or another vertex-by-vertex matrix into a dense array. Graphs and filter banks that are dense or spectral by definition (fully connected graphs, Gabor and modulation filter banks, the normalized heat kernel) are exempt.",
 ['inputs','configurations'],'every graph and signal, all options of the polynomial path',
 'Tests use small graphs, on which a dense or spectral detour is invisible except in time and memory.',
 [G,DI,FI,AP,UT],
 [('sparse algebra only; Fourier basis only reached from the exact method','Graph.compute_laplacian, Filter.filter(chebyshev), cheby_op, Graph.estimate_lmax')])
p('C21','Derived graphs keep the vertex data of their parent aligned',
 "Restricting a graph to some of its vertices (subgraph, connected components, Kron reduction, multiresolution levels) applies the same vertex selection, in the same order, to rows and columns of the weights, to the coordinates and (for subgraphs and connected components) to every signal, and keeps the Laplacian type and the plotting options; connected components and multiresolution levels record the original indices of exactly those vertices.",
 ['inputs'],'every graph, every vertex selection and order, every set of signals',
 'Tests take a few selections on graphs without signals or with the default Laplacian.',
 [G,RE],
 [('the same index object applied to every vertex attribute','Graph.subgraph, Graph.extract_components, reduction.kron_reduction')])
p('C22','Integer and boolean data are not truncated',
 "Weights, coordinates, points, labels, signals and frequencies given with an integer or boolean type give the same results as the same values given as floats: no computed real number is stored into an array that inherited the type of the input or is updated in place in it, no sum of them overflows before it is divided, and no result is cast to an integer or lower-precision type, or rounded down, except indices and counts.",
 ['inputs'],'every input dtype',
 'Tests use float arrays almost everywhere; integer input silently truncates instead of failing.',
 [G,LE,NN,DI,FI,'pygsp/graphs'],
 [('result buffers allocated as float','np.empty / np.zeros without inherited dtype')])
# not applicable
NAs=[
('C31','Fourier transform is orthonormal and invertible numerically','The Fourier basis is orthonormal and diagonalises the Laplacian to working precision, so that transforming back and forth returns the signal, for every undirected graph.',[FO]),
('C32','Chebyshev filtering approximates exact filtering','Filtering with the Chebyshev method converges to exact filtering as the order grows, with an error bounded by the smoothness of the kernel.',[AP,FI]),
('C33','Largest-eigenvalue estimates bound the spectrum','Both estimation methods return an upper bound of the spectrum that is close to the true largest eigenvalue.',[G]),
('C34','Tight-frame designs have equal frame bounds','Filter banks documented as tight have the same squared response sum at every frequency of the spectrum, and the inverse bank reconstructs any signal.',[FI,'pygsp/filters']),
('C35','Learned solutions minimise their objective','Regression and classification return the minimiser of the documented Tikhonov objective under its constraints.',[LE]),
('C36','Nearest-neighbour graphs connect the true neighbours','k-NN and radius graphs connect exactly the nearest points under the chosen metric with the documented kernel weights.',[NN]),
('C37','Reductions preserve the spectrum they promise','Sparsification and Kron reduction preserve effective resistances and quadratic forms within the documented bound, and pyramid synthesis inverts pyramid analysis.',[RE]),
('C38','Random models follow their documented distribution','Random graph models draw from the distribution they document (degrees, block probabilities, connectivity).',['pygsp/graphs']),
]
for id,t,s,f in NAs:
    p(id,t,s,['inputs'],'every graph and signal','Numerical statement over real-valued inputs; tests sample a few.',f,[])
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
