"""Entries after C04 (executed by props.py)."""
NA = {}
GEN = 'src/utils/general.py'
VAL = 'src/utils/validation.py'

P('C05', 'Hyperparameters are settable, and their Gibbs update targets '
  'the posterior',
  'Setting the hyperparameters of a component stores exactly what was given '
  'and rejects values outside their domain; a constructed component has the '
  'given or the default hyperparameters. A Gibbs update of one '
  'hyperparameter draws from its grid with weight proportional to the joint '
  'score at each grid value, all others held fixed, and stores the drawn '
  'value. The grids lie in the domain of the hyperparameter, and the '
  'parameter updates of beta and normal_trunc target the posterior of '
  'their parameters.',
  'inputs histories', 'every held data set, hyperparameter setting and grid',
  'Tests see that inference runs, and at best that a score goes up; a wrong '
  'target distribution still runs and still raises scores.',
  PR + ['src/mixtures/dim.py', 'src/utils/sampling.py'],
  [('set_hypers / construct_hyper_grids', 'src/primitives/*.py'),
   ('transition_params', 'src/primitives/beta.py, normal_trunc.py')],
  ['get_hypers()', 'transition_hypers', 'transition_params'])
P('C06', 'The Chinese restaurant process is an exchangeable partition prior',
  'The crp component seats the next row at an existing table with '
  'probability proportional to its size and at a new table with probability '
  'proportional to alpha; it draws from that law, and its score is the '
  'partition probability, which does not depend on the order of seating. '
  'The Gibbs tables of a row are the existing tables and fresh ones, with '
  'weights given by the seating law with that row removed, alpha being '
  'shared evenly by the fresh tables. Asking for them changes nothing.',
  'inputs histories', 'every seating of rows, alpha and order',
  'Tests try a few seatings.', ['src/primitives/crp.py', GEN],
  [('gibbs_logps / gibbs_tables', 'src/primitives/crp.py')],
  ['logpdf', 'logpdf_score', 'gibbs_logps'])
P('C07', 'Partition priors and dependence constraints are respected',
  'logp_crp and its Gibbs and fresh variants are the Chinese restaurant '
  'process probabilities, and simulate_crp draws from that law. A '
  'constrained simulation never separates customers required together nor '
  'joins customers required apart, and assigns every customer. Partition '
  'validation and conversion accept exactly the well formed inputs, and '
  'what validation accepts is satisfiable.',
  'inputs', 'every partition, alpha and set of constraints',
  'Tests fix a few constraint sets.', [GEN, VAL],
  [('simulate_crp_constrained', GEN), ('validate_*', VAL)],
  ['logp_crp', 'simulate_crp', 'simulate_crp_constrained'])
P('C08', 'A column routes every row and query to the right cluster',
  'A column (Dim) gives each row that has a value to the component of the '
  'cluster named in its inputs, creating it from the hyperparameters if '
  'unseen, and keeps rows with a missing value or input apart. Its score is '
  'the sum of the scores of its clusters, and a query is answered by the '
  'cluster in the inputs or by a fresh one. Removing a row undoes adding '
  'it. All clusters share the hyperparameters of the column, and its '
  'Gibbs update weighs a grid value by the total score of all clusters.',
  'inputs histories', 'every number of clusters and rows, every '
  'hyperparameter grid, every history',
  'Tests use a few clusters with one model; the routing must hold for every '
  'cell, cluster and query.', ['src/mixtures/dim.py'],
  [('incorporate / unincorporate / logpdf / transition_hypers',
    'src/mixtures/dim.py')], ['clusters', 'Zr', 'Zi', 'logpdf_score'])
P('C22', 'Numerical helpers compute what their names say',
  'logsumexp, logmeanexp, log_normalize, normalize and logmeanexp_weighted '
  'compute the stated sums without overflow, including for infinite entries '
  'and empty lists as documented. pflip and log_pflip draw index i with '
  'probability proportional to its weight, whatever the scale and offset of '
  'the weights. The collection helpers merge, flatten and partition without '
  'loss, and the multivariate normal helpers give the density, its '
  'derivatives and the conditional law.',
  'inputs', 'every list of weights', 'Tests fix a few short lists.',
  [GEN, 'src/utils/mvnormal.py'],
  [('logsumexp / pflip', GEN)], ['logsumexp', 'log_pflip'])
VW = 'src/mixtures/view.py'
ST = 'src/crosscat/state.py'
SA = 'src/crosscat/sampling.py'
NI = 'src/network/importance.py'
P('C09', 'A view answers queries as the Dirichlet process mixture it holds',
  'The log density of a hypothetical row under a view is the mixture over '
  'its clusters and one fresh cluster, weighted by the Chinese restaurant '
  'process and by the constraints, of the product of the column predictives; '
  'an observed row is answered by its own cluster. Simulation draws jointly '
  'from the law that the log density describes, the cluster assignment can '
  'itself be a target or a constraint, and N samples are independent. '
  'Malformed queries are rejected and no query changes the view.',
  'inputs', 'every table, partition, set of columns, targets and '
  'constraints', 'Tests compare densities for one small fixed view.',
  [VW, NI, 'src/mixtures/dim.py'],
  [('logpdf / simulate', VW), ('weighted_sample', NI)],
  ['logpdf', 'simulate'])
P('C10', 'A view keeps its clusters consistent with its table',
  'After any sequence of incorporating and removing rows and columns, every '
  'row of a view has exactly one cluster, each column keeps the sufficient '
  'statistics of exactly the cells of its rows by cluster, each with the '
  'current values of the columns it is conditioned on, and no empty '
  'cluster remains. Setting a cell keeps that. The score of the view is the partition prior plus the '
  'sum of the scores of its columns. Removing a row or column undoes adding '
  'it.', 'inputs histories', 'every sequence of row and column updates',
  'Tests check one or two updates and never the resulting statistics.',
  [VW, 'src/mixtures/dim.py'],
  [('incorporate / unincorporate / incorporate_dim', VW)],
  ['Zr', 'dims', 'logpdf_score'])
P('C11', 'Gibbs sampling of row clusters targets the posterior partition',
  'A transition of a row of a view draws its cluster from the posterior '
  'given all other rows: each existing cluster or a fresh one, with weight '
  'proportional to the partition prior times the predictive of the row in '
  'that cluster. It moves exactly the chosen rows, keeps the data, and '
  'evaluating the weights leaves no trace.',
  'inputs histories', 'every table, partition, hyperparameter setting and '
  'row', 'Tests only see that inference runs; a biased kernel still mixes.',
  [VW], [('transition_rows', VW)], ['Zr'])
P('C12', 'A CrossCat state answers queries by independent views',
  'The log density of targets given constraints under a CrossCat state is '
  'the sum over its views of the conditional log density within each view, '
  'observed rows being answered within their own clusters and an observed '
  'cell never being a target. Simulation draws jointly from that law, with '
  'samples of different views independent, and bulk queries equal the '
  'single queries in order. Malformed queries are rejected and no query '
  'changes the state.', 'inputs',
  'every table, partition, targets and constraints',
  'Tests compare a handful of queries on one fixed state.', [ST, SA],
  [('state_logpdf / state_simulate', SA)], ['logpdf', 'simulate'])
P('C13', 'A CrossCat state keeps table, views and columns consistent',
  'After any sequence of incorporating and removing rows and columns, '
  'setting cells and assigning columns to views, every column of a state is '
  'in exactly one view, every view holds all rows and only the cells of the '
  'table, and no empty view remains. The score is the partition prior of '
  'the columns plus the scores of the views. A partition, hyperparameters '
  'and types given at construction are the ones held.',
  'inputs histories', 'every sequence of updates',
  'Tests run one update at a time and check counts.', [ST, VW],
  [('incorporate / unincorporate / incorporate_dim / force_cell / '
    'update_cctype', ST)], ['X', 'Zv()', 'Zr()', 'views', 'logpdf_score'])
P('C14', 'Gibbs sampling of column views targets the posterior partition',
  'A transition of a column of a state draws its view from the posterior '
  'given all other columns: existing views and fresh auxiliary ones, with '
  'weight proportional to the column partition prior times the marginal '
  'score of the column under the row partition of that view. Columns '
  'declared independent never share a view, only chosen columns move, and '
  'the data and the other columns are kept.', 'inputs histories',
  'every state, column, number of auxiliary views and independence '
  'constraints', 'Tests only see that inference runs.', [ST],
  [('_gibbs_transition_dim', ST)], ['Zv()'])
P('C15', 'Inference schedules run exactly the chosen kernels',
  'Each transition of a state changes only the parts it names: rows, '
  'columns, hyperparameters, parameters and concentrations of exactly the '
  'selected rows, columns and views; the table never changes. A schedule '
  'runs the listed kernels in the documented order N times, or until its '
  'time is over, and records its diagnostics at each checkpoint. Hooked '
  'models are transitioned when, and only when, selected.',
  'inputs histories schedules', 'every schedule of kernels, selections, N '
  'and clock', 'Tests run a few schedules and look at no frame.', [ST, VW],
  [('transition / _transition_generic', ST)],
  ['transition', 'diagnostics', 'Zv()', 'Zr()'])
P('C16', 'Dependence, similarity and relevance read the partitions right',
  'Two columns are reported dependent exactly if they share a view (for '
  'outputs of hooked models: if they have an ancestral view or model in '
  'common), and the pairwise matrix agrees with the single queries. The similarity of two rows is the share of the views of the '
  'chosen columns in which they share a cluster. A row is relevant to query '
  'rows exactly if it shares the cluster of every query row and of every '
  'hypothetical row in the view of the context column; hypothetical rows '
  'are gone afterwards.', 'inputs',
  'every partition of rows and columns',
  'Tests use one state and mostly check shapes.', [ST],
  [('dependence_probability / row_similarity / relevance_probability', ST)],
  ['dependence_probability', 'row_similarity', 'relevance_probability'])
P('C17', 'Relevance of a row to a query set is the posterior cluster overlap',
  'The relevance probability of a target row to query rows under a view is '
  'the posterior probability that the target row shares the cluster of the '
  'query rows, given that the query rows share one cluster and given the '
  'assignments of all other rows. The computation leaves the view as it '
  'was.', 'inputs', 'every view, target row and query set',
  'Tests use one small view.', ['src/mixtures/relevance.py', VW],
  [('relevance_probability', 'src/mixtures/relevance.py')],
  ['relevance_probability'])
NW = 'src/network/importance.py'
HP = 'src/network/helpers.py'
P('C18', 'Saved models are restored as they were',
  'A view, state or engine written to metadata (also through JSON) or to a '
  'pickle and read back has the same table, partitions, hyperparameters, '
  'parameters, types, concentrations, constraints, diagnostics and hooked '
  'models, and so the same scores, densities and behaviour under further '
  'updates. The restored object shares nothing with the original: a later '
  'update of one leaves the other alone.', 'inputs histories',
  'every model reached by any history of updates',
  'Tests save one or two fresh models and compare a few fields.',
  [ST, VW, 'src/crosscat/engine.py'],
  [('to_metadata / from_metadata / to_pickle / from_pickle', ST)],
  ['to_metadata', 'from_metadata', 'to_pickle', 'from_pickle'])
P('C19', 'An ensemble of states acts as each of its states',
  'A query of an engine asks each (chosen) state the same query with the '
  'same arguments and returns the answers in the order of the states; an '
  'update reaches each chosen state with the same arguments, and the others '
  'are kept. Every state gets its own seed from the generator of the '
  'engine, so equal engines with equal seeds behave equally, with one or '
  'many processes. Weighted queries average or resample the answers '
  'according to the likelihoods of the constraints.', 'inputs histories '
  'schedules', 'every number of states, arguments and answers',
  'Tests use a few states and mostly check lengths.',
  ['src/crosscat/engine.py', 'src/utils/parallel_map.py'],
  [('_process_query / _process_all', 'src/crosscat/engine.py')],
  ['logpdf', 'simulate', 'transition', 'states'])
P('C20', 'A network of models is wired by the names of its variables',
  'Of a collection of models, the parents of a model are exactly the models '
  'whose outputs are among its inputs; collections where two models share '
  'an output are rejected. Ancestors, descendents and connected components '
  'are those of that graph, the topological order puts every model after '
  'its parents, and a cycle is reported. The required inputs of a query are '
  'exactly what its ancestors need and nobody provides.', 'inputs',
  'every graph', 'Tests use a few hand-made graphs.', [HP, NW],
  [('retrieve_* / topological_sort / validate_cgpms', HP)],
  ['topological_sort', 'retrieve_required_inputs'])
P('C21', 'Queries of composed models follow from the composed law',
  'In a network, a forward sample draws the models in topological order, '
  'each given its sampled or constrained inputs, and its weight is the '
  'total density of the constraints. The density is the weighted average '
  'of the query over such samples, and simulation resamples by weight. A '
  'state with hooked models answers as the network of its views and hooked '
  'models, an observed row conditioning on its own cells, and unhooking '
  'restores the state.', 'inputs', 'every network, targets and constraints',
  'Tests compare a few queries of one network with loose tolerances.',
  [NW, ST], [('weighted_sample / logpdf / simulate', NW),
             ('compose_cgpm / decompose_cgpm', ST)],
  ['logpdf', 'simulate', 'compose_cgpm'])
P('C23', 'A parallel map is the map, for every schedule of its workers',
  'The parallel map returns the values of the function on the items in the '
  'order of the items, whatever order the workers finish in, and computes '
  'each item once. An item whose value cannot be computed or sent is '
  'reported as an error carrying the trace of the worker. In every case '
  'the workers have ended and the pipes are closed when it returns.',
  'inputs schedules', 'every number of items and workers and every schedule',
  'Tests run a few items on the schedule the machine happens to choose.',
  ['src/utils/parallel_map.py'],
  [('parallel_map', 'src/utils/parallel_map.py')], ['parallel_map'])
RG = ['src/regressions/linreg.py', 'src/regressions/ols.py',
      'src/regressions/forest.py']
P('C24', 'Regression components hold the current rows and follow their laws',
  'A linear regression, least-squares or random-forest component keeps '
  'exactly the response and coded covariates of its current rows: '
  'incorporate adds one row, unincorporate removes exactly it, an unknown '
  'or malformed row is rejected with no change, and an observed row '
  'simulates its own value. A nominal input of a linear or '
  'least-squares regression must state its number of categories, or it is '
  'refused. The linear regression is the conjugate '
  'normal-inverse-gamma model: its score grows by its predictive density, '
  'and samples follow that density. Least squares is a normal law around '
  'the fit; the random forest mixes uniform noise with the probabilities '
  'of the forest, its densities sum to one, and its samples follow them.',
  'inputs histories', 'every table, history of updates and query',
  'Tests fit one data set and compare a few plots or moments.', RG,
  [('incorporate / unincorporate / logpdf / simulate / preprocess', RG[0]),
   ('incorporate / unincorporate / logpdf / simulate', RG[1]),
   ('incorporate / unincorporate / calc_predictive_logp', RG[2])],
  ['logpdf', 'simulate', 'logpdf_score', 'incorporate', 'unincorporate'])
MV = ['src/factor/factor.py', 'src/kde/mvkde.py', 'src/knn/mvknn.py']
P('C25', 'Multivariate components hold the current rows and follow their '
  'laws',
  'A nearest-neighbour, kernel-density or factor-analysis component keeps '
  'exactly the observed cells of its current rows, rejects malformed rows '
  'and queries with no change, and answers a query of an observed row '
  'given its other observed cells. Factor analysis is the conditional of '
  'the joint normal law of observed and latent variables. The kernel '
  'density is the average of the kernels of the rows (a conditional is the '
  'joint over the marginal), and its samples follow it; nearest neighbours '
  'averages local models of the nearest rows, ties being broken at random.',
  'inputs histories', 'every table, history of updates and query',
  'Tests compare a few samples of fixed tables with loose tolerances.', MV,
  [('logpdf / simulate / logpdf_score / mvn_condition', MV[0]),
   ('logpdf / simulate / incorporate', MV[1]),
   ('logpdf / simulate / _find_neighborhoods', MV[2])],
  ['logpdf', 'simulate', 'logpdf_score', 'incorporate'])
SP = 'src/utils/sampling.py'
P('C26', 'The general samplers leave their target law as it is',
  'Each step of mh_sample is a Metropolis-Hastings step of the target on its '
  'support, whatever the support (the unit interval, a half line, an '
  'interval, the line): a chain that starts with the law of the target '
  'keeps it. Each step of slice_sample searches the slice on a grid of '
  'random offset and shrinks it to rejected draws, and so keeps the law of '
  'the target as well. Rejection_sample returns draws of the target, and all '
  'three return as many samples as asked for, the given lag apart and after '
  'the burn-in.', 'inputs schedules', 'every target, support and sequence of '
  'draws', 'Tests draw pictures of a few targets.', [SP],
  [('mh_sample / slice_sample / rejection_sample', SP)],
  ['mh_sample', 'slice_sample', 'rejection_sample'])
EX = ['src/dummy/%s.py' % f for f in ('piecewise', 'twoway', 'fourway',
                                      'trollnormal', 'barebones')] + \
     ['src/uncorrelated/%s.py' % f for f in (
         'directed', 'undirected', 'dots', 'linear', 'xcross', 'ring',
         'uniformx', 'parabola', 'sin', 'diamond')]
P('C27', 'Built-in example components sample the law that they score',
  'The example components (piecewise, two way and four way tables, troll '
  'normal; dots, linear, cross, ring, uniform, parabola, sine, diamond) draw '
  'samples from the law that their logpdf reports: densities add up to one, '
  'joint, marginal and conditional queries agree with one another, '
  'conditions and inputs are used at their own places, and impossible '
  'values get -inf. Every sample is drawn from the generator given, '
  'unsupported queries are rejected without a draw, and metadata rebuilds '
  'the component.',
  'inputs', 'every parameter, input, query and sequence of draws',
  'Tests compare a few samples of fixed parameters with loose tolerances.',
  EX, [('logpdf / simulate', f) for f in EX],
  ['logpdf', 'simulate', 'to_metadata', 'from_metadata'])
DU = ['src/utils/config.py', 'src/utils/data.py']
P('C28', 'Types and data are coded without changing what they say',
  'A list of column types is read as the names of the types, in order, each '
  'with the arguments in its parentheses; every type of the library, and no '
  'other, resolves to its own class. A raw table and its schema become one '
  'column per column not ignored, in the order of the schema, with their '
  'types and arguments (declared, or the number of observed categories): a '
  'number stays itself, a missing cell stays missing, a category gets its '
  'rank among the observed categories, the reported codes are the ones used, '
  'and the raw table is not changed. Dummy coding turns a category of k into '
  'k - 1 indicators (none set for the last), leaves numbers in place and '
  'rejects what is no category.',
  'inputs', 'every list of types, table, schema and row',
  'Tests use a few fixed type lists and no schema at all.', DU,
  [('parse_distargs / cctype_class / loom_stattype', DU[0]),
   ('parse_schema / build_valmap / dummy_code', DU[1])],
  ['parse_schema', 'parse_distargs', 'dummy_code'])
FE = ['src/crosscat/lovecat.py', 'src/crosscat/loomcat.py',
      'src/crosscat/state.py']
P('C29', 'An outside inference engine sees the state as it is, and its '
  'answer is taken over',
  'What lovecat and loomcat hand to the outside engine says what the state '
  'says: the same cells (missing ones missing, categories by codes that can '
  'be read back), the same columns sharing a view, the same rows sharing a '
  'cluster of their view, the same concentrations and hyperparameters, and '
  'columns, rows and constraints named consistently, whatever the order in '
  'which the rows were last moved. The engine is run once, with the steps, '
  'time, kernels, rows, columns and checkpoints asked for; the partitions '
  'it returns become those of the state, all of its parts staying '
  'consistent, and hyperparameters are kept. An engine that changes nothing '
  'changes nothing. What the engine cannot hold is rejected, with no change.',
  'inputs histories', 'every state, request and answer of the engine',
  'Tests need the outside packages, which are absent, and sample one run.',
  FE, [('transition / _crosscat_* / _update_state', FE[0]),
       ('transition / _update_state / _write_dataset', FE[1]),
       ('transition_lovecat / transition_loom', FE[2])],
  ['transition_lovecat', 'transition_loom'])

P('C30', 'Entropy and information estimates follow their definitions',
  'The discrete estimators are those of the shares of the samples: the '
  'entropy is minus the sum of p log p (0 log 0 being 0), the mutual '
  'information H(x) + H(y) - H(x, y), given a third variable H(x, z) + '
  'H(y, z) - H(x, y, z) - H(z), in the base asked for. The continuous ones '
  'follow the k-th nearest neighbours of each sample under the maximum norm '
  '(Kozachenko-Leonenko entropy, Kraskov information, divergence of two '
  'samples, and the mixed one from conditional entropies) for every number '
  'of neighbours, dimension and base, up to noise of 1e-10. Shuffle tests '
  'measure permuted copies of one variable only. Samples are not changed.',
  'inputs', 'every list of samples, number of neighbours and base',
  'Tests compare a few estimates on fixed random samples, loosely.',
  ['src/utils/entropy_estimators.py'],
  [('entropyd / midd / cmidd / entropy / mi / cmi / kldiv / micd',
    'src/utils/entropy_estimators.py')],
  ['shuffle_test'])

P('C31', 'Mutual information and entropy estimate what they name',
  'The mutual information of two groups of columns is the mean over N '
  'samples of a new row of log p(x, y) - log p(x) - log p(y), and of a group '
  'with itself the entropy, minus the mean of log p(x), all given the '
  'constraints that have a value. Constraints without a value are averaged '
  'over T draws from their law given those that have one, so that the '
  'estimate of I(X : Y | Z, W = w) is right on average. Columns of '
  'independent parts of the model share no information and contribute '
  'nothing; entropies of independent parts add up. Groups that overlap '
  'without being equal, and targets among the constraints, are rejected '
  'before anything is drawn. The query changes nothing.',
  'inputs histories', 'every state, pair of groups, constraint and number of '
  'samples',
  'Tests compare a handful of large-sample estimates with loose tolerances.',
  ['src/crosscat/state.py'],
  [('mutual_information / _compute_mutual_information / _compute_mi / '
    '_compute_entropy / _partition_mutual_information_query',
    'src/crosscat/state.py')],
  ['mutual_information'])

P('C32', 'VentureScript components keep the interpreter in step with the rows',
  'The interpreter of a VentureScript component holds one observation for '
  'every cell incorporated and none else, made by the observer of its '
  'variable with the row and the inputs in order; removing a row forgets '
  'them. A sample conditions on its constraints, predicts every target with '
  'the row and its inputs, and leaves no trace; N samples are N predictions. '
  'Rejected calls (missing or contradicting inputs, unknown, observed or '
  'missing cells, overlaps, rows not held) change nothing. The program is '
  'run once, in its mode, with its plugins, and must have the sizes '
  'declared. Saving and restoring goes on with the same cells. An inline '
  'component samples and scores its one expression at its inputs.',
  'inputs histories', 'every sequence of calls',
  'Tests need Venture, which is absent, and walk one fixed sequence.',
  ['src/venturescript/vscgpm.py', 'src/venturescript/vsinline.py'],
  [('incorporate / unincorporate / simulate / to_metadata',
    'src/venturescript/vscgpm.py'),
   ('logpdf / simulate', 'src/venturescript/vsinline.py')],
  ['incorporate', 'unincorporate', 'simulate', 'logpdf'])
