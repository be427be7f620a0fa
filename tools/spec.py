#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (python3 tools/spec.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE, UC, UM = 'uncertainties/core.py', 'uncertainties/umath_core.py', 'uncertainties/umath.py'
NPC, UL = 'uncertainties/unumpy/core.py', 'uncertainties/unumpy/ulinalg.py'
TECH = ('symbolic execution of the real Python source (forking, all paths within bounds) with z3 deciding every '
        'branch and assertion over real arithmetic; counterexamples replayed natively')
NOTE = ('Solver verdict for all values within the stated bounds; real-number semantics (rounding/overflow outside the '
        'model); trusts z3, the symbolic value shims (validated by re-running each path witness on the unmodified '
        'package) and the harness oracles.')

P = []


def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), tech=TECH, note=NOTE, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  state=state, observe=observe, tech=tech, note=note, na=na))


prop('P01', 'First-order propagation is exact through any composition and history',
     'For any expression built from independent variables by operators, umath functions or wrapped functions, the '
     'reported derivatives with respect to each variable equal the chain rule applied to the whole expression graph, '
     'whatever the sharing of subexpressions. Only variables that the expression depends on are listed, each once. '
     'The result is the same whether or not intermediate quantities were queried before being used, and for '
     'arbitrarily long chains and sums.',
     ['programs', 'inputs', 'histories'],
     'all expression graphs, all values and local derivatives, all orders of building and querying',
     'Tests use a handful of fixed expressions and mostly never query intermediate results before reuse.',
     [CORE], [('lazy linear combinations', CORE + ': LinearCombination.expand'),
              ('wrapping of operations', CORE + ': wrap'), ('lazy derivatives', CORE + ': AffineScalarFunc.derivatives')],
     state=[('linear_combo', 'lazy sum of (coefficient, term), expanded once', CORE + ': LinearCombination')],
     observe=['x.derivatives', 'x.nominal_value', 'x.std_dev'])
prop('P02', 'Standard deviation is the live quadrature sum of the error components',
     'The standard deviation of any quantity is the square root of the sum over its independent variables of '
     '(derivative times variable sigma) squared; it is never negative, and error_components() lists exactly the '
     'absolute contributions. Changing the sigma of a variable is reflected in every quantity already derived from it, '
     'queried before or not. Variables with zero sigma contribute nothing, even where the derivative is not defined '
     '(NaN); other NaN or infinite components propagate.',
     ['inputs', 'histories'], 'all coefficients and sigmas including 0, NaN and infinity; all reassignments of sigma',
     'Tests check a few numeric examples with positive finite sigmas.',
     [CORE], [('quadrature', CORE + ': AffineScalarFunc.std_dev'), ('components', CORE + ': AffineScalarFunc.error_components')],
     observe=['x.std_dev', 'x.s', 'x.error_components()'])
prop('P03', 'Arithmetic operators: exact values, derivatives and exceptions',
     'For every combination of an uncertain operand with an uncertain number, int or float on either side, + - * / // % '
     'unary + - abs and their in-place forms give the nominal value Python gives for the nominal operands, and the true '
     'partial derivative with respect to each operand (NaN where undefined). Errors (division by zero...) are those that '
     'Python raises for the nominal values. Operands are never modified.',
     ['inputs'], 'all real operands, all operand-type combinations, aliased operands',
     'Existing tests compare against numerical derivatives at a few fixed points.',
     [CORE], [('derivative table', CORE + ': get_ops_with_reflection'), ('abs', CORE + ': modified_operators / add_operators_to_AffineScalarFunc')],
     observe=['result.nominal_value', 'result.derivatives'])
prop('P04', 'umath one-argument functions: value of math, true derivative, constants stay plain',
     'Each one-argument function of umath gives, on an uncertain argument, the nominal value of the math function and the '
     'true derivative wherever it is defined (NaN at singular points), and raises what math raises outside the domain. '
     'On plain numbers it returns exactly what the math module returns. Functions that are not differentiable-valued '
     '(ceil, floor, isnan, isinf, trunc...) return the plain math result.',
     ['inputs'], 'all real arguments of each of the exported functions',
     'Tests compare with numerical derivatives at a few points away from singularities.',
     [UC, UM], [('fixed derivatives', UC + ': fixed_derivatives'), ('wrapping loop', UC + ': many_scalars_to_scalar_funcs / this_module loop')],
     observe=['umath.f(x).nominal_value', 'umath.f(x).derivatives'])
prop('P05', 'umath multi-argument and structured functions',
     'atan2, hypot, fmod, copysign, ldexp, log with a base, pow, fsum, modf, frexp and factorial give the value of the math module on '
     'nominal values, with the true partial derivative for each uncertain argument, for any mix of uncertain and plain '
     'arguments. Structured results keep the structure of math (modf: pair; frexp: mantissa with uncertainty, integer '
     'exponent) with full correlation to the argument. Plain arguments give plain results.',
     ['inputs'], 'all real arguments, every subset of uncertain arguments, the same variable used twice',
     'Tests cover one or two points per function and never mixed argument kinds systematically.',
     [UC], [('derivative table', UC + ': fixed_derivatives'), ('special wrappers', UC + ': fsum, modf, frexp, ldexp')],
     observe=['umath.f(...)'])
prop('P06', 'Powers: value and partial derivatives in every sign and zero case',
     'x**y, pow(x, y), umath.pow(x, y) and reflected forms give Python\'s value (or exception) for the nominal values. '
     'The derivative with respect to the base is y*x**(y-1) where it exists, including zero bases with exponents 0 or >= 1 and '
     'negative bases with integer exponents; with respect to the exponent it is log(x)*x**y for positive bases and 0 for a '
     'zero base with a positive exponent. It is NaN where undefined.',
     ['inputs'], 'all bases and exponents: zero, negative, integral, fractional, uncertain or exact',
     'Tests use a table of special cases with fixed numbers.',
     [CORE, UC], [('pow derivatives', CORE + ': pow_deriv_0, pow_deriv_1, no_complex_result')],
     observe=['(x**y).derivatives'])
prop('P07', 'wrap(): any call style, analytic or numerical derivatives',
     'A wrapped function called with any split of its arguments between positional and keyword, any subset of them '
     'uncertain, gives f at nominal values and the derivative of f with respect to each uncertain argument, analytic where '
     'provided and numerical elsewhere, and it handles several uncertain arguments that share variables. With no uncertain argument it '
     'returns f\'s own result; with uncertain arguments, a result of f that is not a number gives NotImplemented.'
     ' Successive calls in different styles do not influence one another.',
     ['inputs', 'programs', 'histories'],
     'all argument splits, all subsets of uncertain arguments, all subsets of provided derivatives, sequences of calls',
     'Tests exercise a few fixed call shapes.',
     [CORE], [('wrap', CORE + ': wrap'), ('lazily completed lists', CORE + ': IndexableIter')],
     state=[('IndexableIter', 'lazily extended list of derivatives, filled with a default', CORE + ': IndexableIter')],
     observe=['wrap(f, ...)(...)'])
prop('P08', 'Numerical derivatives are accurate, local and side-effect free',
     'The numerical partial derivative used when no analytic one is given agrees with the true derivative of smooth '
     'functions at every point (zero, tiny and large arguments, positional or keyword argument). Only the differentiated argument '
     'is shifted, by an amount that is small relative to it and never zero. The arguments passed by the caller are left untouched.',
     ['inputs'], 'all evaluation points and all smooth functions of the tested classes',
     'Tests only compare with known derivatives at a few points.',
     [CORE], [('partial_derivative', CORE + ': partial_derivative'), ('numerical derivatives', CORE + ': NumericalDerivatives')],
     observe=['partial_derivative(f, arg)(...)', 'wrap(f)(x).derivatives'])
prop('P09', 'Comparisons and truth value are consistent with random variables',
     'x == y exactly when x - y is exactly zero with zero uncertainty (so x == x even through different expressions of the '
     'same variable), != is its negation, and < <= > >= compare nominal values with <= and >= also true under ==. '
     'The same holds against floats and ints on either side, and bool(x) is x != 0. '
     'NaN nominal values or incomparable types never compare equal or raise for == and !=.',
     ['inputs', 'histories'], 'all nominal values, sigmas, correlations and operand types',
     'Tests compare a few numbers; the trichotomy and negation laws quantify over all pairs.',
     [CORE], [('comparison operators', CORE + ': eq_on_aff_funcs, ne_on_aff_funcs, gt_on_aff_funcs...')],
     observe=['x == y', 'x < y', 'bool(x)'])
prop('P10', 'Copying and pickling preserve values and dependency structure',
     'copy.copy/deepcopy of a variable gives a new independent variable with the same value, sigma and tag; a copy of a '
     'derived quantity keeps its value and sigma. Pickling and unpickling a collection preserves values, sigmas, tags and '
     'all the correlations among its members, with any protocol, and '
     'whether or not derivatives had been queried before. The originals are never affected, and later changes to sigma stay on their own side.',
     ['programs', 'histories'], 'collections of variables and functions, all protocols, all query histories',
     'Tests pickle a couple of simple objects.',
     [CORE], [('state', CORE + ': AffineScalarFunc.__getstate__/__setstate__'), ('copy', CORE + ': Variable.__copy__/__deepcopy__')],
     observe=['copy.copy(x)', 'copy.deepcopy(x)', 'pickle.loads(pickle.dumps(x))'])
prop('P11', 'Variables: sigma is always valid, rejected updates change nothing',
     'A standard deviation is always non-negative (or NaN): creating or updating a variable with a negative one raises '
     'NegativeStdDev and leaves the variable unchanged. Nominal values cannot be reassigned. Each ufloat() call gives a '
     'new variable independent from all others; nominal_value()/std_dev() and x.n/x.s, std_score and conversions to plain floats or complex numbers '
     'agree with the definitions (conversion raises TypeError).',
     ['inputs', 'histories'], 'all values, all sequences of accepted and rejected assignments',
     'Tests try one negative value.',
     [CORE], [('sigma setter', CORE + ': Variable.std_dev'), ('construction', CORE + ': ufloat, Variable.__init__'),
              ('accessors', CORE + ': nominal_value, std_dev, std_score')],
     state=[('_std_dev', 'sigma of a variable', CORE + ': Variable')],
     observe=['ufloat(...)', 'x.std_dev = s', 'x.tag'])
prop('P12', 'Covariance and correlation matrices agree with the linear model',
     'covariance_matrix() returns the sum over variables of the products of derivatives times the variance, for any sequence '
     'of quantities; the diagonal holds the variances and the matrix is symmetric. correlation_matrix() is the covariance '
     'divided by the two standard deviations, with unit diagonal and entries in [-1, 1]. Both reflect the current sigmas of the variables.',
     ['inputs', 'programs', 'histories'], 'all sets of linear functions of shared or disjoint variables',
     'Tests check one or two fixed matrices.',
     [CORE], [('covariance', CORE + ': covariance_matrix'), ('correlation', CORE + ': correlation_matrix')],
     observe=['covariance_matrix(seq)', 'correlation_matrix(seq)'])

prop('P13', 'correlated_values() reproduces the given values and covariances',
     'correlated_values(values, C) returns numbers with the given nominal values whose covariance_matrix() is C, for every positive semi-definite '
     'matrix C given as any array-like, including zero variances; correlated_values_norm() does the same from (value, sigma) pairs and a correlation matrix. '
     'Eigenvalues that come out negative count as zero. The numbers depend on as many newly created independent variables, with the given tags, '
     'so that they are not correlated to those of any other call. '
     'The covariances propagate through later calculations.',
     ['inputs'], 'all values, all positive semi-definite matrices',
     'Tests check two or three fixed matrices.',
     [CORE], [('construction', CORE + ': correlated_values, correlated_values_norm')],
     observe=['correlated_values(values, C)', 'correlated_values_norm(pairs, R)', 'covariance_matrix(result)'],
     note=NOTE + ' numpy.linalg.eigh is represented by its contract (a decomposition of the matrix that it is given).')

FMTNOTE = NOTE + (' Text is symbolic: characters of numbers are solver terms over correctly rounded decimal conversion; '
                  'the displayed text is read back by an independent reader written in checks/fmtlib.py.')
prop('P14', 'Formatted numbers are numerically faithful',
     'For every format specification and option (e f g % types, u, P, L, S, p), the nominal value and the uncertainty that the text '
     'denotes are those of the number, correctly rounded at the last displayed digit (within half a unit), with the same '
     'last digit and the same exponent for both. A zero uncertainty is displayed as 0 and the nominal value then follows the usual format, as for '
     'NaN and infinite parts, which are displayed by name (nan, inf, \\mathrm{nan}, \\infty), without being given an exponent.',
     ['inputs'], 'all nominal values and sigmas, all format specifications',
     'Tests compare a table of outputs; the rounding decisions depend on every digit and on the decades of both numbers.',
     [CORE], [('format specification', CORE + ': AffineScalarFunc.__format__'), ('number formatting', CORE + ': format_num')],
     observe=['format(x, spec)', 'str(x)'], note=FMTNOTE)
prop('P15', 'The number of displayed digits and the exponent follow the specification',
     'With .Nu the uncertainty is displayed with exactly N significant digits; without a precision, with the number that the '
     'Particle Data Group rule gives (2 for leading digits 100-354, 1 for 355-949, rounded to 1000 with 2 digits for 950-999). '
     'Without u, the precision has the meaning it has for floats. f never uses an exponent, e always does; otherwise an '
     'exponent is used exactly when the larger of the two numbers needs it. The common exponent '
     'makes the larger of |nominal value| and uncertainty have a mantissa between 1 and 10. '
     'Unknown specifications and .0u raise ValueError.',
     ['inputs'], 'all nominal values and sigmas, all precisions',
     'Boundaries (9.5, 99.95, 354.9, units in the next decade) are reached only by particular digits.',
     [CORE], [('precision', CORE + ': PDG_precision, signif_dgt_to_limit, first_digit'),
              ('exponent choice', CORE + ': AffineScalarFunc.__format__')],
     observe=['format(x, spec)'], note=FMTNOTE)

prop('P16', 'Layout and notation of formatted numbers',
     'Sign, zero padding, width and thousands separators apply to each of the two numbers as they do for floats (the sign option: to the nominal '
     'value only), with fill and alignment from the specification; NaN and infinite parts follow the same rules. Without a width, a common exponent is factored out '
     'as in (n+/-u)e+XX; with a width, each of the numbers has its exponent inside its field. S gives n(u)e+XX with the uncertainty in units of the last digit of n '
     '(or with a decimal point when it straddles the point), P uses the plus-minus sign and superscripts, L the LaTeX forms, % a '
     'factored percent sign, p parentheses around everything. str(x) is the default format.',
     ['inputs'], 'all nominal values and sigmas, all combinations of layout and notation options',
     'Tests check a table of outputs; widths interact with signs, exponents, separators and non-finite numbers.',
     [CORE], [('final assembly', CORE + ': format_num'), ('str', CORE + ': AffineScalarFunc.__str__, AffineScalarFunc.format'),
              ('exponents', CORE + ': EXP_PRINT, to_superscript')],
     observe=['format(x, spec)', 'str(x)'], note=FMTNOTE)
prop('P17', 'Documented text notations are parsed into what they denote',
     'ufloat_fromstr() reads n+/-u and n±u (each number with its own exponent in e or ×10 superscript form), the factored forms '
     '(n+/-u)e5 and (n ± u) × 10⁻⁵, and the shorthand n(u)e5 where u is in units of the last digit of n, or absolute when it '
     'has a decimal point, or nan/inf; without uncertainty, it is 1 on the last digit. Surrounding spaces and parentheses around the whole are ignored. '
     'The result is a new independent variable with the given tag; ufloat(text) gives the same.',
     ['inputs'], 'all digits, decimal point positions, signs and exponents in all documented notations',
     'Tests parse a table of strings.',
     [CORE], [('parsing', CORE + ': str_to_number_with_uncert, parse_error_in_parentheses, to_float, nrmlze_superscript'),
              ('regular expressions', CORE + ': NUMBER_WITH_UNCERT_RE_STR...'), ('entry points', CORE + ': ufloat_fromstr, ufloat_obsolete')],
     observe=['ufloat_fromstr(text, tag)', 'ufloat(text)'], note=NOTE + ' Texts are symbolic characters.')
prop('P18', 'Any text is read as its notation says, or rejected',
     'ufloat_fromstr() on any text whatsoever either returns the number with uncertainty that the whole text denotes (nothing in it is ignored: '
     'trailing text, an exponent or a second line), or raises ValueError (NegativeStdDev if the denoted uncertainty is negative); '
     'no other exception escapes. Incomplete exponents, exponents that overflow, unbalanced parentheses, and repeated symbols are rejected.',
     ['inputs'], 'all texts', 'Tests parse four invalid strings.',
     [CORE], [('parsing', CORE + ': str_to_number_with_uncert, parse_error_in_parentheses, to_float'),
              ('regular expressions', CORE + ': NUMBER_WITH_UNCERT_RE_MATCH, NUMBER_WITH_UNCERT_GLOBAL_EXP_RE_MATCH, PRETTY_PRINT_MATCH')],
     observe=['ufloat_fromstr(text)'], note=NOTE + ' Texts are symbolic characters.')

prop('P19', 'Texts made by the package are read back into the same number',
     'ufloat_fromstr(format(x, spec)) gives the nominal value and the uncertainty that are displayed, hence those of x to within half a unit of the last '
     'digit, for all specifications and options except L, %, commas, zero padding of NaN or infinity, and fill characters other than spaces. '
     'ufloat_fromstr(repr(x)) gives exactly the nominal value and the uncertainty of x; repr() of a tagged variable shows this text as '
     '< tag = text >.',
     ['inputs'], 'all nominal values and sigmas including 0, NaN and infinity, all specifications',
     'Tests parse back a table of outputs.',
     [CORE], [('formatting', CORE + ': AffineScalarFunc.__format__, format_num'), ('repr', CORE + ': AffineScalarFunc.__repr__, Variable.__repr__'),
              ('parsing', CORE + ': str_to_number_with_uncert')],
     observe=['ufloat_fromstr(format(x, spec))', 'ufloat_fromstr(repr(x))'], note=FMTNOTE)

prop('P20', 'unumpy arrays and matrices behave as arrays of their elements',
     'uarray() and umatrix() build independent variables in the given shape (also for equal elements, or a single number for all of them), and nominal_values(), std_devs() give the (live) values in the same shape. '
     'The unumpy version of each umath function, with the name that NumPy uses (arccos, arcsinh...), applies the umath function to each element, with its result '
     'type, derivatives and exceptions. Array operators, reductions (sum, mean, prod, dot, cumsum), matrix products, sums and differences, and products and quotients by scalars '
     'with or without uncertainty give the numbers with uncertainty that the same operations on elements give, with all correlations. Arguments are left alone.',
     ['inputs'], 'all elements (variables, quantities that share variables, plain numbers), all shapes within bounds',
     'Tests check a few arrays; mixed and correlated elements interact with each operation and each NumPy type promotion.',
     [NPC, CORE, UC], [('vectorised functions', NPC + ': define_vectorized_funcs'), ('construction', NPC + ': uarray, umatrix'),
              ('access', NPC + ': nominal_values, std_devs'), ('matrices', NPC + ': matrix.__mul__, matrix.__rmul__, matrix.nominal_values, matrix.std_devs')],
     observe=['unumpy.<function>(array)', 'array operators', 'matrix operators'], note=NOTE + ' NumPy runs natively on object arrays.')
prop('P21', 'Inverse and pseudo-inverse of matrices with uncertainties',
     'unumpy.ulinalg.inv(), ulinalg.pinv() and the I attribute of a unumpy.matrix give the inverse, or the Moore-Penrose pseudo-inverse, of the nominal values '
     '(rcond: cutoff of small singular values, 1e-15 by default), and for each variable, the true derivative of each element of the result, for any mix of variables, shared or derived quantities '
     'and plain numbers, whatever the shape, and also for matrices of constant deficient rank. The result is a unumpy.matrix for matrices and an array for arrays and lists; without '
     'uncertainty, it is what NumPy returns; singular matrices raise the exception of NumPy.',
     ['inputs'], 'all real matrix elements and derivatives within the bounds',
     'Tests compare a few matrices with numerical derivatives.',
     [NPC, 'uncertainties/unumpy/ulinalg.py'], [('inverse', NPC + ': inv_with_derivatives'), ('pseudo-inverse', NPC + ': pinv_with_derivatives'),
              ('assembly', NPC + ': func_with_deriv_to_uncert_func'), ('attribute', NPC + ': matrix.getI')],
     observe=['ulinalg.inv(m)', 'ulinalg.pinv(m, rcond)', 'm.I'],
     note=NOTE + ' The LAPACK kernels inv and pinv are represented by their definitions (A X = X A = 1; Penrose conditions).')
prop('P22', 'Wrapped array functions propagate uncertainties through arrays',
     'A function of an array that is wrapped with unumpy.core.wrap_array_func() gives f at the nominal values, with its other positional and keyword parameters passed on, as numbers with '
     'uncertainty whose derivatives with respect to each variable are those of f applied to the whole array (chain rule through shared and derived elements), '
     'exactly for linear functions and to first order otherwise; without uncertainty in the array, it gives the plain result of f. Shapes may change; the argument is left alone.',
     ['inputs', 'programs'], 'all elements, derivatives and sigmas (including 0), all linear maps, typical nonlinear functions',
     'Tests wrap one function, on one matrix.',
     [NPC], [('numerical derivatives of array functions', NPC + ': wrap_array_func')],
     observe=['wrap_array_func(f)(array, ...)'], note=NOTE)
prop('P23', 'Obsolete forms give what current forms give, with a warning',
     'ufloat((value, sigma)), with or without a tag, x.std_dev(), x.set_std_dev(s), uarray((values, sigmas)), umatrix((values, sigmas)) and matrix.std_devs() '
     'give exactly what the current forms give (same values, new independent variables, same rejection of negative sigmas) and issue a warning; the current forms issue none.',
     ['inputs'], 'all values and sigmas', 'Tests do not call most obsolete forms.',
     [CORE, NPC], [('ufloat', CORE + ': ufloat, ufloat_obsolete'), ('callable sigmas', CORE + ': CallableStdDev'), ('arrays', NPC + ': uarray, umatrix, CallableStdDevs'),
              ('warnings', CORE + ': deprecation')],
     observe=['ufloat(...)', 'x.std_dev()', 'warnings'], note=NOTE)
prop('P24', 'The 1to2 source converter rewrites obsolete calls only',
     'python -m uncertainties.1to2 turns programs that use obsolete forms into programs that use the current forms and do the same, whatever the layout of the program, and leaves all other code unchanged.',
     ['programs'], 'all programs', 'Tests convert a list of statements.',
     ['uncertainties/lib1to2/fixes'], [('fixers', 'uncertainties/lib1to2/fixes/*.py')], observe=['converted source text'],
     na='The fixers are tree patterns that are executed by lib2to3 (tokenizer, parser driver and pattern compiler of the Python standard library) over the source text of a program; '
        'a symbolic program text does not get through these foreign tables and loops, so only enumeration of concrete programs would be possible, which is not this technique.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                     quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                                  state=[dict(name=a, meaning=b, where=c) for a, b, c in p['state']],
                                  observe_at=list(p['observe']), hook_needed=None))
            f.write(json.dumps(d) + '\n')
    man = dict(version=1, setup_cmd='/opt/venv/bin/python run_check.py --selftest',
               checks=[dict(property=p['id'], quick_cmd='/opt/venv/bin/python run_check.py ' + p['id'],
                            thorough_cmd='VERIF_TIER=thorough /opt/venv/bin/python run_check.py ' + p['id'],
                            technique=p['tech'], level='model_checking', level_note=p['note'])
                       for p in P if not p['na']],
               not_applicable=[dict(property=p['id'], reason=p['na']) for p in P if p['na']])
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
