"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe, hook_needed=None,
            **({'state': [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}))))

prop('C01', 'Set operations are pointwise',
 'The intersection, union and complement of sets of values contain exactly the values that the pointwise Boolean combination of membership says, for numeric sets (finite points, open/closed/half-open intervals, infinite endpoints, and unions of these) and for nominal sets (finite or co-finite sets of strings), and the operations never fail on such sets. In a union of a numeric and a nominal set, numbers are governed by the numeric part and strings by the nominal part, for intersection and union.',
 ['inputs'], 'all endpoints and points (any real order, ties included, infinite endpoints), all open/closed flags, all numeric/nominal shapes within the stated number of parts, every probe value',
 'tests/test_sets.py probes a few dozen hand-picked pairs; every other layer (solving, probability, conditioning) rests on these operations for arbitrary endpoints, ties and flags.',
 ['src/sets.py'],
 [('Interval and/or/invert', 'src/sets.py:Interval'), ('FiniteReal / FiniteNominal / EmptySet operations', 'src/sets.py'), ('Union and the merging of intervals with points', 'src/sets.py:Union, union_intervals, union_intervals_finite')],
 ['x in (A & B)', 'x in (A | B)', 'x in ~A'])

prop('C02', 'Sets are kept in normal form, so equality is sameness of members',
 'A set produced by the set operations exposes parts that are pairwise disjoint and cannot be merged further. Two numeric (or two nominal) sets produced by the operations compare equal exactly when they contain the same values, and equal sets have equal hashes.',
 ['inputs'], 'all pairs of sets of up to the stated number of parts with arbitrary real endpoints and flags, combined in either order and by different routes',
 'Probabilities are sums over the parts of a solution set, so one overlap double counts; tests compare a few results for equality and never look for overlapping or adjacent parts in general.',
 ['src/sets.py'],
 [('normalisation on union', 'src/sets.py:union_intervals, union_intervals_finite, Interval.__or__, FiniteReal.__or__'), ('equality and hash', 'src/sets.py:*.__eq__, *.__hash__')],
 ['A | B == B | A', 'parts of a union', 'hash(A)'])

prop('C03', 'Solving an event returns exactly its solutions',
 'For every event on one numeric variable that compares a transformed expression (scaled, shifted or polynomial, absolute value, reciprocal, root, exponential, logarithm, piecewise, and compositions of these) with a threshold, an interval or a finite set, the solution set contains precisely the finite real numbers in the domain of the expression at which the event is true. Events on the variable itself, with chained comparisons and with nominal values, obey the same rule.',
 ['inputs'], 'all real thresholds and interval ends with every strictness, all probe values of the variable, all transformation shapes and compositions within the stated bounds, symbolic coefficients for affine expressions',
 'tests/test_solve_transforms.py fixes about 40 concrete expressions and thresholds; boundary inclusion, sign of coefficients, decreasing branches and empty or full solutions vary with every input.',
 ['src/transforms.py', 'src/poly.py', 'src/sets.py', 'src/sym_util.py'],
 [('preimage of a set under each transformation', 'src/transforms.py:Transform.invert, invert_finite, invert_interval'), ('building events from comparisons', 'src/transforms.py:Transform.__lt__ ..., EventInterval.__compute_gte__'), ('polynomial inequalities', 'src/poly.py')],
 ['event.solve()', 'event.evaluate(assignment)'])

prop('C04', 'Event connectives and DNF mean what they say',
 'For any events, the negation, conjunction, disjunction and exclusive-or built from them are true at an assignment exactly when the corresponding Boolean combination of the operands is true there, including the simplifications made for events on the same expression. Rewriting an event to disjunctive normal form never changes its truth value at any assignment.',
 ['inputs'], 'all events with up to the stated number of literals over up to three variables with arbitrary thresholds and flags, every assignment',
 'The tests check object equality of a few rewritten events; they do not evaluate the rewritten event at arbitrary assignments.',
 ['src/transforms.py'],
 [('connectives with same-expression simplification', 'src/transforms.py:EventBasic/EventOr/EventAnd __and__ __or__ __invert__ __xor__'), ('DNF', 'src/transforms.py:Event.to_dnf')],
 ['(A & B).evaluate', '(~A).evaluate', 'A.to_dnf().evaluate'])

prop('C05', 'Normalising an event and splitting it into disjoint clauses is lossless',
 'Normalising an event yields either nothing, exactly when the event is unsatisfiable, or an equivalent event in disjunctive normal form stated directly on the variables. Splitting a normalised event into a disjoint union yields clauses no two of which can be true at the same assignment and whose disjunction is equivalent to the original, and factoring an event by variable preserves it clause by clause.',
 ['inputs'], 'all events with up to the stated number of clauses and literals over up to three variables, arbitrary thresholds and flags, every assignment',
 'Conditioning adds clause probabilities, so any overlap or lost region gives a wrong posterior; tests cover some fixed events by comparing clause lists.',
 ['src/dnf.py', 'src/transforms.py', 'src/sets.py'],
 [('normalisation', 'src/dnf.py:dnf_normalize'), ('factoring', 'src/dnf.py:dnf_factor'), ('overlap test and cascaded negation', 'src/dnf.py:dnf_non_disjoint_clauses, dnf_to_disjoint_union')],
 ['dnf_normalize(event)', 'dnf_to_disjoint_union(event)'])

prop('C06', 'The probability of an event on one variable is its measure',
 'For a continuous, integer-valued, atomic or nominal variable, plain or already conditioned, the probability of any event on that variable equals the measure its distribution gives to the set of values satisfying the event, including non-integer or negative thresholds for integer-valued variables, open and closed bounds, point sets and complements. The probability is never negative or above one and never raises an error for an event on that variable.',
 ['inputs'], 'arbitrary monotone CDFs and arbitrary point masses, all thresholds (integer or not, any sign, infinite), all flags, event shapes within bounds',
 'Tests use a few named distributions and mostly integer positive thresholds.',
 ['src/spe.py', 'src/math_util.py', 'src/sets.py'],
 [('interval and finite-set probabilities', 'src/spe.py:RealLeaf.logprob_values__, ContinuousLeaf/DiscreteLeaf.logprob_interval__, logprob_finite__'), ('conditioned CDF', 'src/spe.py:RealLeaf.logcdf'), ('log-space difference', 'src/math_util.py:logdiffexp')],
 ['leaf.prob(event)', 'leaf.logprob(event)'])

prop('C07', 'Conditioning one variable follows the definition of conditional probability',
 'For a continuous, integer-valued, atomic or nominal variable and any event A of positive probability, the conditioned variable gives every event B the probability P(A and B)/P(A), and conditioning again composes the same way. Conditioning on an event of probability zero is refused with an error and never returns a distribution.',
 ['inputs', 'histories'], 'arbitrary CDFs and point masses, all event shapes A, B (and repeated conditioning) within bounds, all thresholds and flags',
 'Tests condition some named distributions on a few intervals; non-integer cut points, one-sided flags and repeated conditioning are not explored in general.',
 ['src/spe.py', 'src/sym_util.py', 'src/math_util.py'],
 [('conditioning on a union of contiguous pieces', 'src/spe.py:RealLeaf.condition__, flatten_values_contiguous'), ('nominal and atomic conditioning', 'src/spe.py:NominalLeaf.condition__, AtomicLeaf.condition__'), ('grouping consecutive integers', 'src/sym_util.py:partition_finite_real_contiguous')],
 ['leaf.condition(A).prob(B)'])

prop('C08', 'Mixtures and products give every event its exact probability',
 'For every distribution built by nesting weighted mixtures and independent products, the probability of any Boolean combination of events over its variables equals the weighted sum over mixture components of the joint measure of that event under independence. This holds whatever the overlap between the disjuncts of the event.',
 ['inputs'], 'arbitrary component measures and weights, all product/mixture shapes and events within the stated numbers of variables, components, clauses and literals, all thresholds and flags',
 'Inclusion-exclusion with pruning is exercised by tests on fixed numeric examples only.',
 ['src/spe.py', 'src/dnf.py', 'src/math_util.py'],
 [('inclusion-exclusion with pruning of null subsets', 'src/spe.py:ProductSPE.logprob_mem, logprob_conjunction, logprob_conjunction_key'), ('mixture', 'src/spe.py:SumSPE.logprob_mem'), ('operators building mixtures and products', 'src/spe.py:SPE.__rmul__, __and__, PartialSumSPE.__or__')],
 ['spe.prob(event)', 'spe.logprob(event)'])

prop('C09', 'Conditioning a joint distribution is Bayes rule',
 'For every distribution built from mixtures and products and every event A of positive probability, the conditioned distribution gives every event B probability P(A and B)/P(A), gives A probability one, and can be conditioned again with the same rule. Conditioning on an event of probability zero is refused with an error.',
 ['inputs', 'histories'], 'arbitrary component measures and weights, all shapes of model, A and B within the stated bounds, overlapping clauses, components of zero posterior weight, repeated conditioning',
 'Tests check some posteriors of fixed programs; component pruning, overlapping disjuncts and zero-weight branches depend on the inputs.',
 ['src/spe.py', 'src/dnf.py', 'src/math_util.py'],
 [('mixture posterior weights and pruning', 'src/spe.py:SumSPE.condition_mem'), ('disjoint clauses of a product', 'src/spe.py:BranchSPE.condition, ProductSPE.condition_mem, condition_clause')],
 ['spe.condition(A).prob(B)'])

prop('C10', 'Densities and constraining to values are consistent',
 'The log density of an assignment is the sum over independent parts and the weighted sum over mixture components of the smallest number of continuous coordinates, with continuous coordinates contributing densities and discrete or nominal ones probabilities, and it is the log of zero when no component supports the assignment. Constraining a distribution to an assignment of positive density yields the posterior in which the assigned variables, and the variables computed from them, are fixed, the mixture weights are re-weighted by those densities, and the remaining variables keep their conditional law; an assignment of zero density is refused.',
 ['inputs', 'histories'], 'arbitrary densities, masses and weights (zero included), all assignments, mixtures and products within the stated bounds',
 'tests/test_logpdf.py covers a handful of fixed numeric mixtures.',
 ['src/spe.py'],
 [('density with dimension bookkeeping', 'src/spe.py:SumSPE.logpdf_mem, ProductSPE.logpdf_mem, LeafSPE.logpdf_mem'), ('constraining', 'src/spe.py:*.constrain_mem, constrain__, AtomicLeaf')],
 ['spe.logpdf(assignment)', 'spe.constrain(assignment)'])

prop('C11', 'Simplifying or sharing structure never changes the distribution',
 'Simplifying a mixture of leaves or of products, and merging duplicate subexpressions, yields a distribution that assigns every event the same probability as before, for every choice of component distributions, parameters and weights. Two distributions are merged only if they are the same distribution.',
 ['inputs'], 'mixtures of up to the stated number of components with arbitrary overlap pattern between their factors, arbitrary parameters (including values whose hashes collide), derived variables, user-specified discrete tables',
 'tests/test_sum_simplify.py and test_cache_duplicate_subtrees.py use distinct, non-colliding parameters and check tree shapes.',
 ['src/spe.py', 'src/sym_util.py'],
 [('grouping of equal children', 'src/sym_util.py:partition_list_blocks; src/spe.py:spe_simplify_sum_leaf'), ('factoring shared children', 'src/spe.py:spe_simplify_sum_product, spe_simplify_sum_product_helper'), ('duplicate subtrees', 'src/spe.py:spe_cache_duplicate_subtrees'), ('leaf equality', 'src/spe.py:RealLeaf.__eq__, AtomicLeaf.__eq__, NominalLeaf.__eq__')],
 ['spe_simplify_sum(spe).prob(event)', 'spe_cache_duplicate_subtrees(spe, {}).prob(event)'])

prop('C12', 'Answers do not depend on the query history',
 'A sequence of queries (probability, conditioning, density, constraining) on a distribution that shares a cache across queries gives the same answers as each query asked alone with no cache. Queries do not change the distribution they are asked of.',
 ['histories', 'inputs'], 'all sequences of queries up to the stated length over a set of distributions sharing subexpressions, with arbitrary thresholds (equal or not) and assignments',
 'Tests compare cached and uncached sizes and timings for a few cases, not all query sequences with coinciding or nearly coinciding keys.',
 ['src/spe.py', 'src/transforms.py'],
 [('memo tables and their keys', 'src/spe.py:memoize, Memo, SPE.get_memo_key, LeafSPE.logprob/condition'), ('equality and hash of events and expressions used as keys', 'src/transforms.py:*.__eq__, *.__hash__')],
 ['spe.logprob(e, memo)', 'spe.condition(e, memo)', 'spe.logpdf(a, memo)', 'spe.constrain(a, memo)'],
 [('memo tables', 'results by (node identity, query)', 'src/spe.py:Memo')])

prop('C13', 'Every sample satisfies the model it was drawn from',
 'For every outcome of the random source, each sample assigns every requested variable exactly once, lies in the support of the (possibly conditioned) distribution, satisfies every event the distribution was conditioned on, and gives derived variables the value of their defining expression. Exactly the requested number of samples is returned, and sampling a subset of variables or a function of variables is the projection of full samples.',
 ['inputs', 'schedules'], 'all outcomes of the random number source (uniforms, choices, permutations), arbitrary CDFs and weights, model shapes within bounds',
 'Tests draw with one seed and check a few statistics.',
 ['src/spe.py', 'src/math_util.py', 'src/transforms.py'],
 [('inversion sampling of truncated variables', 'src/spe.py:RealLeaf.sample__'), ('component choice and counts', 'src/spe.py:SumSPE.sample_many'), ('derived variables', 'src/spe.py:LeafSPE.sample_subset'), ('merging of independent samples', 'src/spe.py:merge_samples')],
 ['spe.sample(N)', 'spe.sample_subset(symbols, N)', 'spe.sample_func(f, N)'])

prop('C14', 'Derived variables behave as their defining expression',
 'After defining a new variable as an expression of an existing one, in any nesting of definitions, mixtures and products, the probability, posterior and support of any event on the derived variables equal those of the event with the definition substituted, and all queries on the old variables are unchanged. Substituting definitions into an event is equivalent to evaluating the definitions first, for every assignment.',
 ['inputs'], 'all events on base and derived variables within bounds, chains of definitions, arbitrary thresholds and base distributions',
 'tests/test_spe_transform.py and test_substitute.py check fixed expressions by object equality.',
 ['src/spe.py', 'src/transforms.py'],
 [('environments of leaves', 'src/spe.py:RealLeaf.transform, AtomicLeaf.transform, SumSPE.transform, ProductSPE.transform'), ('substitution', 'src/transforms.py:Transform.substitute, subs, expr_in_env')],
 ['spe.transform(Y, f(X)).prob(event)', 'event.substitute(env)'])

prop('C15', 'Running a model command sequence computes the program\'s distribution',
 'Interpreting a sequence of commands (sampling, derived variables, conditioning, constraining, if/elif/else on any conditions including overlapping ones, switch over values, loops, skip) yields the distribution obtained by running the program forward: each branch is taken exactly when its condition is the first that holds, and contributes its conditional distribution with the probability of being taken. Branches of probability zero contribute nothing, and simplification does not change the result.',
 ['programs', 'inputs'], 'all command programs within the stated size, arbitrary conditions, thresholds, measures and weights',
 'Tests run a few fixed programs and compare a few probabilities.',
 ['src/compilers/ast_to_spe.py', 'src/spe.py', 'src/dnf.py'],
 [('branching', 'src/compilers/ast_to_spe.py:IfElse, Switch, interpret_if_block'), ('sequencing and loops', 'src/compilers/ast_to_spe.py:Sequence, For'), ('other commands', 'src/compilers/ast_to_spe.py:Sample, Transform, Condition, Constrain, Skip')],
 ['command.interpret().prob(event)'])

prop('C16', 'Compiling source text preserves the program',
 'A source program compiles to commands whose distribution is the one the source denotes: assignments of distributions and weighted mixtures sample, assignments of expressions define derived variables, ==, !=, in and not in test membership, if/elif/else and conditional expressions branch in order, switch covers its cases, for loops unroll over their range, arrays name their elements, and condition and constrain apply in order. Constants, imports and nested blocks keep their meaning and scope.',
 ['programs', 'inputs'], 'all source programs in the bounded grammar stated, arbitrary numeric constants',
 'tests/test_sppl_to_python.py checks some thirty fixed programs.',
 ['src/compilers/sppl_to_python.py', 'src/compilers/ast_to_spe.py'],
 [('source translation', 'src/compilers/sppl_to_python.py:SPPL_Visitor, SPPL_Transformer_Compare, unroll_if, unroll_ifexp, SPPL_Compiler.preprocess')],
 ['SPPL_Compiler(source).execute_module().model.prob(event)'])

prop('C17', 'Serialising to a dictionary and back preserves the distribution',
 'Converting any distribution (leaves of every kind, plain or conditioned, with derived variables; mixtures; products) to its dictionary form and back yields a distribution equal in structure and giving every event the same probability, and the dictionary contains nothing but plain data.',
 ['inputs'], 'all model shapes within bounds, arbitrary parameters, supports, flags, weights, environments with every kind of transformation',
 'tests/test_spe_to_dict.py uses 25 fixed expressions.',
 ['src/compilers/spe_to_dict.py', 'src/transforms.py', 'src/sets.py'],
 [('conversion', 'src/compilers/spe_to_dict.py:spe_to_dict, spe_from_dict, env_to_dict, env_from_dict'), ('textual form of sets and transforms', 'src/transforms.py, src/sets.py: __repr__')],
 ['spe_from_dict(spe_to_dict(spe))'])

prop('C18', 'Rendering to source text and recompiling preserves the distribution',
 'Rendering a distribution as a source program and compiling that program gives a distribution over the same variables (plus the explicit branch choices) that assigns every event on the original variables the same probability.',
 ['inputs', 'programs'], 'all mixtures and products of named leaves within bounds, conditioned or not, with derived variables, arbitrary parameters, weights and support bounds',
 'One test renders one model.',
 ['src/compilers/spe_to_sppl.py', 'src/compilers/sppl_to_python.py', 'src/transforms.py'],
 [('rendering', 'src/compilers/spe_to_sppl.py:render_sppl, render_sppl_helper, render_sppl_choice'), ('textual form of events and transforms', 'src/transforms.py:__str__')],
 ['SPPL_Compiler(render_sppl(spe).getvalue()).execute_module()'])

prop('C19', 'Mutual information is the textbook quantity',
 'The mutual information of two events under any distribution equals the sum over the four truth combinations of p(a,b) log(p(a,b)/(p(a)p(b))) with zero terms dropped, and hence is symmetric and non-negative, for every joint distribution including degenerate ones where an event has probability zero or one.',
 ['inputs'], 'all joint distributions of the two events (four symbolic cell probabilities, zeros included), events on the same or different variables',
 'Two tests compare a single model against a formula.',
 ['src/spe.py', 'src/math_util.py'],
 [('mutual information', 'src/spe.py:SPE.mutual_information'), ('log-space difference', 'src/math_util.py:logdiffexp, log1mexp')],
 ['spe.mutual_information(A, B)'])

prop('C20', 'Declared supports carry all of the probability mass',
 'For every distribution constructor and every admissible parameter setting (including location and scale, where accepted), the numeric range recorded for the resulting variable contains all values the underlying distribution can take, so that the probabilities of an event and of its complement add up to one. Constructing a distribution with admissible parameters never fails.',
 ['inputs', 'configurations'], 'every constructor, all real location/scale/shape parameter values admitted by the underlying family',
 'Tests construct each of a few families once with default parameters; the range is a formula in the parameters.',
 ['src/distributions.py', 'src/sets.py', 'src/spe.py'],
 [('support formulas', 'src/distributions.py:*.get_domain, RealsPosLoc, UnitIntervalLocScale'), ('parameter handling of derived constructors', 'src/distributions.py:atomic, uniformd, discrete, rv_discrete, NominalDistribution, DistributionMix')],
 ['dist(**params)(X).support', 'dist(**params)(X).prob(event)'])

prop('C21', 'Arithmetic on variables means arithmetic on their values',
 'An expression built from a variable with +, -, *, /, unary minus, abs, powers, roots, exponentials, logarithms and numbers on either side evaluates, at every value in its domain, to the number obtained by doing that arithmetic on the value. Combining two expressions of the same base adds or multiplies their values, and piecewise expressions select the value of the unique piece whose event holds.',
 ['inputs'], 'all expressions of the bounded operator grammar with arbitrary real constants, every value of the variable in the domain',
 'tests/test_parse_transforms.py compares parsed structures for fixed constants and one side of each operator.',
 ['src/transforms.py', 'src/sym_util.py'],
 [('operator overloading', 'src/transforms.py:Transform.__add__ ... __rpow__'), ('evaluation', 'src/transforms.py:*.ffwd, evaluate')],
 ['expr.evaluate({X: x})'])

prop('C22', 'Polynomial inequalities are solved exactly on every route',
 'For every polynomial with real coefficients, threshold (finite or infinite) and strictness, the solver for "polynomial at most threshold" and "polynomial equals threshold" returns exactly the solutions, whether it takes the symbolic route, the numerical route (chosen by configuration, failure or time-out of the symbolic one) or the infinite-threshold route. Repeated roots, no roots and constant sign are included.',
 ['inputs', 'configurations', 'fault_sequences'], 'all root configurations (any order, multiplicities, none) up to the stated degree with arbitrary real roots, leading coefficient, threshold and strictness; symbolic solver succeeding, giving up or timing out',
 'tests/test_poly.py uses some fixed polynomials, mostly with simple roots.',
 ['src/poly.py', 'src/timeout.py', 'src/sets.py'],
 [('root intervals and probe points', 'src/poly.py:solve_poly_inequality_numerically, solve_poly_equality_numerically'), ('infinite thresholds', 'src/poly.py:solve_poly_inequality_inf, solve_poly_equality_inf'), ('fallback on time-out', 'src/poly.py:solve_poly_inequality, solve_poly_equality')],
 ['solve_poly_inequality(expr, b, strict)', 'solve_poly_equality(expr, b)'])

prop('C23', 'Equal expressions and events are interchangeable',
 'Two transformed expressions, events or variables compare equal only if they have the same meaning at every value, equality is reflexive and symmetric, equal objects have equal hashes, and every expression, event, set and distribution can be hashed.',
 ['inputs'], 'all pairs of expressions/events of the bounded grammar with arbitrary constants',
 'Equality is used for simplification, caching and merging; tests compare objects that are equal by construction.',
 ['src/transforms.py', 'src/spe.py', 'src/sets.py'],
 [('equality and hash', 'src/transforms.py:*.__eq__, *.__hash__; src/spe.py:*.__eq__, *.__hash__')],
 ['e1 == e2', 'hash(e)'])

prop('C24', 'Ill-formed models are refused and operators build the stated model',
 'Weights outside (0,1), mixtures whose weights exceed or fall short of one, mixtures over different variables, products over shared variables, derived variables that reuse a name or mix independent parts, and overlapping pieces of a piecewise expression are refused with an error, for every value of the weights and bounds. Well-formed combinations are always accepted and produce the model with exactly the stated weights and components, however mixtures and products are nested.',
 ['inputs'], 'all weights, all nestings of the model-building operators and constructors within bounds',
 'Tests try a few fixed weights and one or two misuse cases.',
 ['src/spe.py', 'src/distributions.py', 'src/transforms.py', 'src/sym_util.py'],
 [('model operators', 'src/spe.py:SPE.__rmul__, __and__, PartialSumSPE, SumSPE.__init__, ProductSPE.__init__'), ('mixtures of distributions', 'src/distributions.py:Distribution.__rmul__, DistributionMix'), ('piecewise validation', 'src/transforms.py:get_piecewise_symbol, get_piecewise_domains')],
 ['w*A | v*B', 'A & B', 'SumSPE(...)', 'ProductSPE(...)'])

prop('C25', 'Batches of samples have the right joint law',
 'In a batch of samples each sample has the law of the distribution: independent parts stay independent within each sample of a batch, and each mixture component is represented according to its weight at every position of the batch.',
 ['inputs', 'schedules'], 'all weights of the components, all positions in batches of the stated size, the random source replaced by its exact law',
 'Tests look at marginal frequencies of one variable for one seed; dependence introduced between positions or between independent parts is invisible to them.',
 ['src/spe.py', 'src/math_util.py'],
 [('component choice, counting and shuffling', 'src/spe.py:SumSPE.sample_many'), ('merging of independent samples', 'src/spe.py:ProductSPE.sample, merge_samples'), ('weighted choice', 'src/math_util.py:logflip, flip, normalize, lognorm')],
 ['spe.sample(N)'])

prop('C26', 'Readable renderings show the actual structure',
 'The nested-list renderings of a distribution list, for every node, its actual kind, symbols, children in order, and for mixtures the weights as probabilities, and for leaves the distribution, support and derived variables.',
 ['inputs'], 'all model shapes within bounds with arbitrary weights and parameters',
 'One test renders a model without checking the contents.',
 ['src/render.py'],
 [('rendering', 'src/render.py:render_nested_lists, render_nested_lists_concise')],
 ['render_nested_lists(spe)'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
