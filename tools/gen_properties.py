"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
T='src/protosym/core/tree.py'; A='src/protosym/core/atom.py'; E='src/protosym/core/evaluate.py'
D='src/protosym/core/differentiate.py'; S='src/protosym/core/sym.py'; X='src/protosym/simplecas/expr.py'
F='src/protosym/simplecas/functions.py'; L='src/protosym/simplecas/lambdification.py'
M='src/protosym/simplecas/matrix.py'; Y='src/protosym/simplecas/sympy_conversions.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
p('C01','Expressions are canonical: same parts, same object',
 'Building an atom from one atom type and an equal value, a tree from one atom or from the same children, or a user-level expression from one class and one tree always returns the very object of that description that is still alive, and different atom types, values, children (in number, order or identity) or classes always give different objects; so identity, == and hash coincide with structural equality. '
 'Every object reads back exactly the parts it was built from (an atom: its type and an equal value). '
 'Children that are not trees, tree atoms that are not atoms and user-level wrappings of non-trees are rejected with TypeError and leave no trace.',
 ['inputs','histories'],'all values, children tuples and classes, after every history of constructions and garbage collections',
 'Tests build a handful of atoms and trees and compare a few pairs; the guarantee is over every pair ever built in every order and with objects dying in between.',
 [A,T,S],[('Atom.__new__ / AtomType.__call__',A),('Tree.__new__, Tree.atom, Tr, Tree.__call__',T),('Sym.__new__, head, args',S)],
 [('_all_atoms','weak table (atom type, value) -> live atom',A),('_all_trees','weak table children tuple or atom -> live tree',T),('_all_expressions','weak table (class, tree) -> live Sym',S)],
 ['Atom','Tree','Sym','is','==','hash'])
p('C02','Topological sort is complete, minimal and children-first',
 'For every expression, the topological sort lists each subexpression reachable from it through arguments (and, on request, through heads) without entering excluded subexpressions exactly once, after all of its own listed children, with the expression itself last; it lists nothing else and nothing excluded, and is empty when the expression itself is excluded. '
 'The set of excluded expressions passed in is left unmodified, and the returned list is a new list on every call.',
 ['inputs'],'all expressions (of any sharing pattern and depth), all exclusion sets, with and without heads',
 'Tests check three small expressions; sharing, repeated heads, compound heads and exclusion interact in unboundedly many shapes.',
 [T],[('topological_sort',T)],(),['topological_sort','Expr.count_ops_graph'])
p('C03','Splitting and the forward graph rebuild the expression exactly',
 'For every expression, the topological split separates the topological sort into its atoms, its compound nodes (each list in the order of the sort) and exactly the set of heads of those nodes. '
 'The forward graph lists those atoms and one operation per compound node, each operation naming the node\'s head and, in argument order, the positions of its arguments, all of which lie earlier; replaying the operations over the atoms therefore yields every subexpression once and the expression itself last.',
 ['inputs'],'all expressions',
 'Tests check two expressions; index bookkeeping errors only show for particular sharing or repetition patterns.',
 [T],[('topological_split',T),('forward_graph',T),('ForwardGraph',T)],(),['topological_split','forward_graph'])
p('C04','Substitution is simultaneous, exact and reusable',
 'Substituting replacement expressions for given subexpressions replaces every occurrence (as an argument, as a head, or as the whole expression) of each given subexpression by its own replacement, all at once, never substituting inside a replacement, and leaves every other part unchanged; the result is exactly the recursively defined substitution. '
 'A substitution prepared once gives for every later call the same answer as a freshly prepared one, and supplying the wrong number of replacements raises TypeError.',
 ['inputs'],'all expressions, all lists of distinct subexpressions to replace (atomic, compound, nested in each other, absent, or the whole expression) and all replacements',
 'Tests cover about a dozen combinations; which parts are shared, pruned or replaced depends on the overlap between expression and patterns.',
 [T,X],[('SubsFunc.__new__ / __call__ / call',T),('ExprFunction, Expr.as_function, Expr.xreplace',X)],
 [('SubsFunc.atoms/operations','compiled substitution program',T)],['SubsFunc','Expr.xreplace','Expr.as_function'])
p('C05','Evaluation equals its recursive definition',
 'For every expression, rule set and assignment of values to atoms, evaluating gives the value defined recursively: an atom has its assigned value if there is one and otherwise the value of its rule, and a compound expression has its head\'s operation applied to the values of its arguments in order. '
 'Forward evaluation (the default) and recursive evaluation agree, including for user-level evaluators whose assignments are keyed by user-level expressions.',
 ['inputs','programs'],'all expressions, all sets of pure rules, all assignments of values to atoms',
 'Tests evaluate three expressions with one rule set; sharing patterns, argument order and assignment lookups are unbounded.',
 [E,S],[('Evaluator.eval_forward / eval_recursive / evaluate / __call__',E),('SymEvaluator.__call__',S),('forward_graph',T)],(),['Evaluator','SymEvaluator','Expr.eval_f64'])
p('C06','Evaluation rules dispatch exactly, with defined fallbacks',
 'In an evaluator, an atom is evaluated by the rule most recently registered for its own atom type and an operation by the rule most recently registered for its own head (fixed-arity rules receive the argument values as separate arguments, variadic rules as one sequence), and registering a rule affects no other atom type, head, fallback or evaluator. '
 'When no specific rule exists the fallback receives the whole atom, or the head and the argument values; in a plain evaluator the initial fallbacks raise NoEvaluationRuleError, and in a transformer they leave the atom, or rebuild the operation, unchanged.',
 ['inputs','histories'],'all evaluators reached by any sequence of rule registrations, all atoms, heads and argument values',
 'Tests register a handful of rules; override order, fallback and isolation between evaluators are history properties.',
 [E],[('Evaluator.add_atom/add_atom_generic/add_op1/add_op2/add_opn/add_op_generic',E),('Evaluator.eval_atom/eval_operation',E),('Transformer.__init__',E)],
 [('Evaluator.atoms/operations/generic_*','registered rules',E)],['Evaluator','Transformer'])
p('C07','User-level rule registration accepts and rejects correctly',
 'Assigning a rule to a user-level evaluator registers exactly that rule for exactly the pattern\'s head, atom type or fallback when the right-hand side is a symbolic call of the kind that fits the pattern (unary/binary/variadic operation for a head, value function for an atom type, atom function or head operation for the generic rules) on the same wild arguments in the same order (a variadic operation on w needing a star(w) pattern). '
 'Every other assignment to an expression, atom value or generic pattern raises BadRuleError and changes no rule, and no assignment changes another evaluator.',
 ['inputs'],'all combinations of pattern kind, rule kind and wild arguments',
 'Ten bad combinations are tested for the exception only; that nothing is registered and that every other combination is classified correctly is untested.',
 [S],[('SymEvaluator.__setitem__ / add_op',S),('star, AtomRule, HeadRule, SymAtomType.__getitem__, PyOp*.__call__',S)],(),['SymEvaluator'])
p('C08','Differentiation returns the mathematical derivative',
 'For every expression and every atom, and for every set of valid differentiation rules, differentiating returns an expression whose value is the derivative of the expression\'s value with respect to that atom: sums, products of any number of factors, heads with per-argument rules (chain rule) and linear heads (differentiated argument-wise and keeping their shape) included. '
 'When a needed rule is missing the call raises KeyError instead of returning a wrong derivative.',
 ['inputs','programs'],'all expressions, differentiation variables and sets of mathematically valid rules',
 'Tests differentiate some fifteen expressions; n-ary products, repeated arguments, shared subexpressions and multi-argument chain rules are unbounded.',
 [D,T],[('diff_forward, product_rule_forward, chain_rule_forward, DiffProperties',D),('forward_graph',T),('SubsFunc',T)],(),['diff_forward','SymDifferentiator','Expr.diff'])
p('C09','Differentiation rules and repeated derivatives mean what they say',
 'Assigning diff[f(a1,..,an), ai] = d with different expressions a1,..,an makes the partial derivative of f in its i-th argument equal to d with a1..an replaced simultaneously by the actual arguments, for every d, and changes no other rule; a pattern that is not a pair, or in which the symbol does not occur exactly once as an argument, raises TypeError and registers nothing. '
 'Differentiating n times applies the derivative n times (n = 0 returns the expression itself), and declaring a head distributive affects only that head.',
 ['inputs','histories'],'all rule patterns over distinct wilds, all right-hand sides, all expressions and repetition counts',
 'Tests register rules with one or two arguments and differentiate at most a few times.',
 [S,D,X],[('SymDifferentiator.__setitem__/__call__/add_distributive_rule',S),('DiffProperties.add_*',D),('Expr.diff',X)],(),['SymDifferentiator','Expr.diff'])
p('C10','Built-in numeric and derivative rules are mathematically right',
 'The shipped floating-point evaluator computes integers, n-ary sums and products, powers, sine and cosine with the corresponding real operation on the argument values in order. '
 'The shipped derivative rules for sine, cosine and the base of a power are the mathematical partial derivatives, lists are differentiated element-wise, and no other head has a shipped derivative rule.',
 ['inputs'],'all argument values (expressions) of the built-in heads',
 'Tests use a few numeric points; a wrong sign, swapped arguments or wrong exponent can survive at such points.',
 [F,X],[('eval_f64 rules',F),('diff rules',X)],(),['Expr.eval_f64','Expr.diff'])
p('C11','Arithmetic on expressions builds exactly the written operation',
 'For all expressions and integers, the operators + - * / ** (on either side), unary + and - and calling build the expression for exactly that operation with operands in the written order, without simplification (subtraction as adding -1 times the right operand, division as multiplying by its power -1). '
 'Integers are converted to integer atoms of equal value, converting an expression returns it unchanged, and any other operand makes the operator raise TypeError (a call or conversion: ExpressifyError).',
 ['inputs'],'all pairs of expressions and Python objects and all operators',
 'Tests use a fixed pair of operands per operator.',
 [X],[('Expr.__add__ ... __rpow__, __neg__, __pos__, __call__',X),('expressify, expressify_other',X)],(),['Expr operators','expressify'])
p('C12','Binary expansion preserves value and leaves only binary sums and products',
 'For every expression in which sums and products have at least one argument, binary expansion returns an expression of equal value in which every sum and product has exactly two arguments, n-ary ones being folded from the left in argument order and one-argument ones replaced by their argument. '
 'Everything else is rebuilt unchanged: other heads keep their expanded arguments in order, and an expression without sums and products of arity other than two is returned unchanged.',
 ['inputs'],'all expressions',
 'Two expressions are tested.',
 [X,E],[('bin_expand transformer and Expr.bin_expand',X),('Transformer',E)],(),['Expr.bin_expand','bin_expand'])
p('C13','Operation counts equal the sizes of the graph and of the tree',
 'For every expression, the graph count is the number of distinct subexpressions reachable through arguments (heads not counted, the expression itself included) and the tree count is the number of such subexpressions counted with multiplicity. ',
 ['inputs'],'all expressions',
 'Tests use one family of expressions.',
 [X],[('Expr.count_ops_graph, Expr.count_ops_tree, count_ops_tree rules',X),('topological_sort',T)],(),['Expr.count_ops_graph','Expr.count_ops_tree'])
p('C14','Generated code for an expression computes the expression',
 'For every expression over integers, parameters, sums, products, powers, sine and cosine, and every list of distinct parameter symbols with plain names, the generated LLVM IR is a function with one double parameter per symbol in the given order whose returned value is the value of the expression at those arguments over real arithmetic (constants being the nearest doubles), every register being defined exactly once before its use; the compiled function is exactly that code. '
 'An expression with an unsupported head, or an atom that is neither a parameter nor an integer, raises LLVMNotImplementedError.',
 ['inputs','programs'],'all expressions of the supported language, all parameter lists with plain distinct names, all argument values',
 'Two IR texts and a few function values are tested; register numbering, operand order and sharing vary with the expression.',
 [L],[('_to_llvm_f64, _double_to_hex, _lambdify_llvm, lambdify',L),('bin_expand',X),('forward_graph',T)],(),['lambdify','Expr.to_llvm_ir'])
p('C15','Generated code for a matrix fills exactly its entries',
 'For every matrix whose entries are in the supported language, the generated LLVM IR stores into the row-major position i*ncols+j of the output array the value of entry (i, j), for every stored entry, and writes nowhere else; the compiled function returns a new array of the matrix\'s shape with exactly the entries\' values, zero entries being zero. '
 'Unsupported heads and unknown atoms raise LLVMNotImplementedError.',
 ['inputs','programs'],'all shapes, sparsity patterns, shared entries and parameter lists with plain distinct names (_out being the name of the output array)',
 'Five matrices are tested.',
 [L],[('_to_llvm_f64_matrix, _lambdify_llvm_matrix',L),('Matrix entrymap',M)],(),['lambdify','Matrix.to_llvm_ir'])
p('C16','Matrix entries read back exactly',
 'For every non-empty rectangular list of lists of expressions and integers, the matrix built from it has that shape, and indexing and conversion to lists give back exactly the (converted) entries; index pairs outside the shape raise IndexError, other indices TypeError. '
 'Ragged input, rows or tables that are not lists and unconvertible entries raise TypeError; the input lists are not modified and the lists returned are fresh and share no storage between rows or with the matrix.',
 ['inputs'],'all shapes, entries and zero patterns',
 'Tests use 1x1 to 2x3 matrices.',
 [M],[('Matrix.__new__/_new/__getitem__/tolist',M)],[('Matrix.entrymap/elements','sparse entry storage',M)],['Matrix'])
p('C17','Matrix addition and differentiation are element-wise',
 'For matrices of equal shape, each entry of the sum is the sum expression of the two entries, in that order, where both are stored and the stored one where only one is, so its value is the sum of the two entries\' values; adding matrices of different shape raises TypeError and neither operand changes. '
 'Each entry of the derivative of a matrix is the derivative of that entry, and shape is preserved by both operations.',
 ['inputs'],'all pairs of matrices, shapes, sparsity patterns and variables',
 'Three additions and two derivatives are tested.',
 [M],[('Matrix.__add__/binop/diff',M),('List distributive rule',X)],(),['Matrix.__add__','Matrix.diff'])
p('C18','SymPy conversion preserves structure both ways',
 'Converting an expression to SymPy applies, bottom-up and with arguments in order, the SymPy operation of the same meaning (integers, symbols, sums, products, powers, sine, cosine, lists and applied undefined functions), and converting from SymPy maps each supported SymPy node, with any number of arguments, to the corresponding expression node with arguments in order. '
 'Matrix conversions keep shape and place every entry at its own index, including zero matrices, and unsupported SymPy objects raise NotImplementedError.',
 ['inputs'],'all expressions and all SymPy expressions over the supported node types (plain symbols), all matrices',
 'Five expressions and one matrix are tested.',
 [Y],[('eval_to_sympy rules, to_sympy, from_sympy, _from_sympy_cache, _from_sympy_cache_args',Y),('to_sympy_matrix, from_sympy_matrix',Y)],(),['Expr.to_sympy','Expr.from_sympy','Matrix.to_sympy','Matrix.from_sympy'])
p('C19','Printed forms show the expression',
 'The text and LaTeX forms of a user-level expression are compositional: an integer or name prints as itself, sums and products print all their arguments in order, bracketed and separated by their own operator, powers print base and exponent in order, and any other head prints as a call with all arguments in order. '
 'The text form, read as Python with the names bound, has the value of the expression whenever the base of every power in it prints as something that binds tighter than a power.',
 ['inputs'],'all expressions',
 'Some twenty strings are tested.',
 [F,X,S],[('eval_repr and eval_latex rules',F),('Expr.__repr__/__str__/eval_repr/eval_latex/_repr_latex_',X)],(),['repr','str','Expr.eval_latex'])
p('C20','Operations leave expressions, rules and inputs untouched',
 'Sorting, building graphs, substituting, evaluating, differentiating, expanding, counting, printing, converting and generating code modify no existing expression, matrix, evaluator, differentiator, registered rule or argument, keep nothing for later calls beyond the tables that make expressions canonical, and return lists and objects that are new; only the explicit registration operations change rules, and only in the object they are called on. '
 'So repeating an operation on the same inputs gives the same result after any history.',
 ['inputs','histories'],'all inputs and all histories of operations',
 'Tests call each operation once or twice on fresh inputs and never check the inputs afterwards.',
 [T,E,D,S,X,M,L],[('every function listed in C02-C19','src/protosym')],(),['all query operations'])
p('C21','Depth-independent algorithms: no recursion, shared parts done once',
 'Topological sorting, graph construction, evaluation, substitution, differentiation, binary expansion, counting, printing of user-level expressions and IR generation use a call depth that does not grow with the depth of the expression, so they succeed on arbitrarily deep expressions (whose heads are atoms). '
 'Evaluation applies a rule exactly once to every distinct subexpression that has no given value, however often it is shared.',
 ['inputs'],'all expressions of any depth and sharing',
 'Tests go to depth about 100 and never count rule applications.',
 [T,E,D,X,F,L],[('iterative traversal in topological_sort',T),('eval_forward',E),('diff_forward',D)],(),['all query operations'])
p('C22','Canonical construction holds under concurrent threads',
 'When several threads build atoms, trees or user-level expressions from the same parts at the same time, under every interleaving all of them obtain the same object, which every thread sees complete from the moment it receives it; parts of the wrong type are still rejected with TypeError.',
 ['schedules'],'all interleavings of constructing threads',
 'No test uses threads, and interleavings cannot be enumerated by unit tests.',
 [A,T,S],[('setdefault on the weak tables',A)],(),['Atom','Tree','Sym'])
p('C23','Unused expressions are released',
 'An expression, matrix, evaluator or differentiator that is no longer referenced by the user, nor by another live object, is eventually released, whatever operations it was used in before, and an expression is then removed from the tables that make expressions canonical.',
 ['histories'],'all histories of constructions, operations and dropped references',
 'No test observes garbage collection.',
 [A,T,S],[('WeakValueDictionary tables',A)],(),['Atom','Tree','Sym'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as fh:
    for q in P:
        q['statement']=q['statement'].strip(); assert len(q['title'])<=80,q['id']
        fh.write(json.dumps(q)+'\n')
