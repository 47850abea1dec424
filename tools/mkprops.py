#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source text of the properties)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
U='uncertainties/ureal.hpp'; U2='uncertainties/ureal2.hpp'; HG='uncertainties/internal/hessgrad.hpp'
MO='uncertainties/internal/moments.hpp'; CM='uncertainties/internal/checkmoments.hpp'
MA='uncertainties/math.hpp'; FU='uncertainties/functions.hpp'; IO='uncertainties/io.hpp'; IM='uncertainties/impl.hpp'
ST='uncertainties/stat.hpp'; UR='uncertainties/ureals.hpp'; DI='uncertainties/distr.hpp'; CO='uncertainties/core.hpp'

p('C01','First-order linear propagation law',
 'For first-order variables, the result of unary(x,m,d), binary(x,y,m,dx,dy) and nary(xs,m,ds) has mean m and, for every independent variable v, sensitivity to v (derivative times standard deviation) equal to the sum over operands of (derivative argument) times (operand\'s sensitivity to v), and no sensitivity to anything else. The operators + - * / (unary and binary, with variables or plain numbers) obey this law with the exact partial derivatives of the operation, and have as mean the operation applied to the means. Operands are never modified, and it makes no difference whether an operand is a constant, an independent variable or a dependent one, or whether operands are the same object.',
 ['inputs','histories'],'all operand states reachable through the public interface (constant, independent, dependent on any number of independent variables, cached or uncached), all real means, derivatives and coefficients, any number of operands for nary',
 'The tests propagate a handful of expressions and compare standard deviations only; the law quantifies over every operand shape (3x3 kinds, any overlap of dependency sets) and every coefficient.',
 [U],[('unary',U),('binary',U),('nary',U),('operator+ - * /',U)],
 [('id/sdev/sigma/mu','independent id, own coefficient or cached sdev, coefficients per independent variable, mean',U)],
 ['n()','cov(result, v) for every independent v','var','grad'])
p('C02','In-place operations agree with the out-of-place ones, aliasing included',
 'For first-order variables, binary_assign and the operators += -= *= /= leave in the target exactly the mean and, for every independent variable, exactly the sensitivity that the corresponding two-operand operation would have returned, and leave the right operand unchanged. This holds in every state of the operands, after any history of cached or uncached standard deviations, and also when target and right operand are the same object. Standard deviation, variance and covariance read afterwards always reflect the new value, never a stale one.',
 ['inputs','histories'],'all target/operand states including x op= x, any preceding sequence of in-place operations and cached reads, all real derivatives (0, 1, negative included)',
 'Tests exercise one or two compound assignments; aliasing, cached sdev and dt==1 / dt==0 / negative-derivative combinations are not covered.',
 [U],[('binary_assign',U),('operator+= -= *= /=',U)],
 [('sdev','cache of the standard deviation of a dependent variable, negative when stale',U)],['n()','s()','var','cov'])
p('C03','Covariance is the bilinear form of the sensitivities',
 'For first-order variables cov(x,y) equals the sum over all independent variables of the product of the sensitivities of x and y; hence it is symmetric, zero for variables with no common independent variable, var(x)=cov(x,x)=s(x)^2 and s(x)>=0, and corr(x,y)=cov(x,y)/(s(x)s(y)). This holds for every combination of constant, independent and dependent arguments. Reading s or var through a const or non-const variable, any number of times and in any order, gives the same value and does not change any other result.',
 ['inputs','histories'],'all pairs of variables with arbitrary (finite) dependency sets, all interleavings of cached and uncached reads',
 'Tests check a few covariances numerically; the merge of two arbitrary sorted dependency sets and the caching protocol are sampled only on small cases.',
 [U],[('cov',U),('var',U),('s',U),('s2',U),('corr',U)],
 [('sdev cache','standard deviation cache',U)],['cov','var','corr','s()'])
p('C04','Independent variables have unique identities, preserved by copying',
 'Each construction of a variable from a mean and an uncertainty (first or second order) yields an independent variable whose identity is positive and differs from that of every other construction in the program, also across first- and second-order variables and concurrently constructing threads. Copies keep the identity and are fully correlated with the original, variables made from a plain number or by default have identity 0 and zero variance, a result depending on exactly one independent variable reports it as its identity and a result depending on several reports an invalid identity. A negative standard deviation is rejected with std::invalid_argument.',
 ['inputs','histories','schedules'],'all constructor arguments, all histories of constructions and operations, all interleavings of constructions in several threads',
 'Tests construct a few variables in one thread and never compare identities across the two classes or across interleavings.',
 [U,U2,CO,IM],[('UReal(n,s)',U),('UReal2(n,moments,..)',U2),('last_id',IM),('isindep/indepid',U)],
 [('last_id','global atomic counter',IM)],['indepid()','isindep()','exceptions'])
p('C05','First-order grad is the derivative with respect to the given variable',
 'For first-order variables y.grad(x) returns, for every x that depends on exactly one independent variable with nonzero sensitivity, the ratio of the sensitivities of y and x to that variable (so x.grad(x)=1 and f(x).grad(x)=f\'(x)), and 0 if y does not depend on it. It throws std::invalid_argument if x depends on several independent variables or on none. Neither variable is modified.',
 ['inputs'],'all y (constant, independent, dependent) and all x',
 'The existing tests never call it on an independent receiver and cover few representations.',
 [U],[('UReal::grad',U)],[],['grad'])
p('C06','Conversions of first-order variables preserve mean and all correlations',
 'Converting a first-order variable to another numerical type keeps (up to the conversion of each number) its mean, its sensitivity to every independent variable and its identity, so that all covariances with other variables are preserved. change_nom(x,n) returns a variable with mean n and otherwise the same as x. Accessors, unary plus, nom and sdev return the mean and standard deviation without changing anything.',
 ['inputs'],'all variable states, all target numeric types',
 'Tests convert one or two simple variables.',
 [U],[('operator UReal<OtherReal>',U),('change_nom',U),('nom/sdev',U)],[],['n()','s()','cov','indepid()'])
p('C07','First-order math functions propagate the true derivative',
 'For every function in the first-order part of the math header (abs, fmod, remainder, fmax, fmin, exp, exp2, expm1, log, log10, log2, log1p, pow, sqrt, cbrt, hypot, all circular, inverse circular, hyperbolic and inverse hyperbolic functions, atan2, erf, erfc), the mean of the result is the standard function of the mean(s), and the sensitivity of the result is the mathematical derivative (partial derivatives, for two arguments) of that function at the mean(s) times the sensitivity of the argument(s). This holds at every interior point of the domain where the function is differentiable.',
 ['inputs'],'every function, every real point of differentiability (pow: base > 0, or base < 0 with integer exponent, or base 0 with constant nonnegative integer exponent)',
 'The tests compare standard deviations (blind to signs and to x/y asymmetries) against finite differences at a few random points.',
 [MA],[('math functions on UReal',MA)],[],['n()','cov','grad'])
p('C08','Second-order math functions propagate the true first and second derivatives',
 'For every function in the second-order part of the math header, the first-order mean of the result is the standard function of the first-order mean(s), and the first derivatives and all second derivatives (including the mixed one) used in the propagation are the mathematical ones at that point. This holds at every interior point of the domain where the function is twice differentiable.',
 ['inputs'],'every function, every real point of twice differentiability (pow: base > 0, or base < 0 with constant integer exponent, or base 0 with constant nonnegative integer exponent)',
 'Tests sample a few points with finite-difference tolerance.',
 [MA],[('math functions on UReal2',MA)],[],['first_order_n()','grad','hess'])
p('C09','User-defined functions: explicit and finite-difference derivatives',
 'A function built with uunary/ubinary/uunary2/ubinary2 from user callables evaluates them at the (first-order) means of its arguments and propagates with exactly the derivatives supplied. Where derivatives are not supplied it uses the documented difference quotient with the given step: forward differences for the first-order builders and for second derivatives obtained from supplied first derivatives, central differences (with the documented mixed-derivative formula) otherwise; these are exact on polynomials up to the order of the formula. The default step is epsilon to the power 1/2 (first-order formulas) or 1/4 (second-order formulas).',
 ['inputs','programs'],'all user callables, all argument states, all steps',
 'Tests check two or three functions within a loose tolerance.',
 [FU],[('uunary',FU),('ubinary',FU),('uunary2',FU),('ubinary2',FU),('default_step',FU)],[],['n()','grad','hess'])
p('C10','Second-order propagation obeys the second-order chain rule',
 'For second-order variables the result of unary, binary, binary_assign and of the operators + - * / has as first-order mean the given (computed) value, and as gradient and full Hessian (diagonal and every mixed entry, also between variables that were not yet correlated) with respect to the independent variables those given by the second-order chain rule applied to the operands\' gradients and Hessians. The moments of each independent variable involved are carried over unchanged and the operands are not modified. This holds for operands depending on any number of independent variables with any sparsity and overlap.',
 ['inputs','histories'],'all operand states (any number of independent variables, any sparsity pattern of the Hessian, any overlap), all derivative values (zeros included), self-aliased operands',
 'Tests use 1 to 3 variables and mostly products; sparse Hessian patterns with missing mixed entries are not reached.',
 [U2,HG],[('unary/binary',U2),('ConstHessIt',HG),('HessGrad access',HG)],
 [('diagmap/trimap','gradient, Hessian and moments, sparse',HG)],['grad','hess','m(n)'])
p('C11','Second-order moments are the exact moments of the quadratic expansion',
 'For a second-order variable with gradient g and half Hessian h with respect to independent standardized variables with given moments, m(1) is the expectation of the quadratic form g.v + v.h.v, and m(2), m(3), m(4) are its exact second, third and fourth central moments, for any number of independent variables and any sparsity. n() is the first-order mean plus m(1) for moment propagation and minus m(1) for estimate propagation. s(), var, skew and kurt are sqrt(m(2)), m(2), m(3)/m(2)^(3/2) and m(4)/m(2)^2.',
 ['inputs'],'any number of independent variables, all gradients, Hessians (any sparsity pattern) and moments',
 'The formulas have some 70 terms over up to four distinct indices; tests compare a few Monte Carlo or product cases.',
 [U2,MO,HG],[('compute_m1..m4',MO),('update_mom',U2),('ConstTriIt',HG)],[],['m(1..4)','n()','s()','skew()','kurt()'])
p('C12','Second-order covariance is the covariance of the quadratic expansions',
 'For second-order variables cov(x,y) is the exact covariance of the two quadratic expansions under the moments of the independent variables, so it is symmetric, bilinear under addition, zero for variables without common independent variables, and cov(x,x)=var(x). corr(x,y)=cov(x,y)/(s(x)s(y)). This holds for any number of independent variables, any overlap and any sparsity.',
 ['inputs'],'all pairs of variables, any dependency sets and sparsity',
 'Tests check cov only on simple sums and products.',
 [U2,MO],[('compute_c2',MO),('cov/var/corr',U2)],[],['cov','var','corr'])
p('C13','Second-order grad and hess return the derivatives, or throw',
 'For second-order variables f.grad(x) is the derivative of f with respect to x and f.hess(x,y) the second derivative, for any x and y that are functions of a single independent variable (change of variable included), symmetric in x and y, and zero when f does not depend on them. They throw std::invalid_argument when x or y depends on no or on several independent variables, and hess also when x and y are different functions of the same independent variable.',
 ['inputs'],'all f, x, y states',
 'Tests use plain independent variables and a few functions.',
 [U2,HG],[('UReal2::grad',U2),('UReal2::hess',U2),('diag_get/hhess_get',HG)],[],['grad','hess','exceptions'])
p('C14','Construction from moments reproduces them and rejects impossible ones',
 'A second-order variable constructed from mean and central moments 2 to 8, or from mean, standard deviation and standardized moments 3 to 8, has that mean, and its variance, skewness, kurtosis and all propagated moments are those of a distribution with the given moments (a zero variance gives a constant). Unless the check is disabled by a negative threshold, the constructor throws std::invalid_argument exactly when the 5x5 matrix of moments is not positive semidefinite within the threshold (most negative over most positive eigenvalue); it throws also for a negative standard deviation. No identity is consumed by accident: a successful construction yields a fresh independent variable.',
 ['inputs','configurations'],'all moment arrays, thresholds, both constructors',
 'Tests try a dozen moment arrays; the relation between the two constructors and the matrix layout is not covered for general input.',
 [U2,CM],[('UReal2 constructors',U2),('check_moments_throw',CM),('hamburger',CM)],[],['m(n)','skew','kurt','exceptions'])
p('C15','Distribution factories have the moments of the distribution',
 'normal(mu,sigma), chisquare(k) and uniform(left,right) return independent variables whose mean, variance and standardized moments 3 to 8 are exactly those of the named distribution, for all parameters. Invalid parameters (negative sigma, negative k, left > right) throw std::invalid_argument, and zero-width distributions are constants with zero variance. The conversion between raw, central and standardized moments is exact.',
 ['inputs'],'all parameters',
 'Tests compare a few parameter values with Monte Carlo tolerance.',
 [DI,IM],[('normal/chisquare/uniform',DI),('central_moments/std_moments',DI),('compute_binom_coeffs',IM)],[],['n()','s()','skew','kurt','m(4) of x*x'])
p('C16','Matrix utilities are element-wise exact',
 'cov_matrix and corr_matrix (container and iterator versions, first- and second-order) produce at position (i,j) exactly the covariance/correlation of elements i and j, for every length including 0, write exactly n*n elements and return the end of the output. corr2cov produces corr_ij*sigma_i*sigma_j and throws std::invalid_argument exactly when the sizes do not match. nom_vector returns the means in order.',
 ['inputs'],'all lengths, all variables, all containers',
 'Tests use one fixed length.',
 [ST],[('outer',ST),('cov_matrix/corr_matrix',ST),('corr2cov',ST),('nom_vector',ST)],[],['returned matrices','exceptions'])
p('C17','ureals realizes a given mean vector and covariance matrix',
 'ureals(mu,cov) returns n variables with means mu_i and covariances cov(x_i,x_j)=cov_ij, for every symmetric positive semidefinite matrix, including singular ones, that the linear algebra library factorizes, reading only one triangle. It throws std::invalid_argument exactly when the sizes do not match, throws for a matrix that is not positive semidefinite, and returns an empty vector for n=0. Separate calls give mutually independent variables.',
 ['inputs'],'all sizes, means and positive semidefinite matrices (given a correct LDLT factorization from the linear algebra library)',
 'Tests use a few random full-rank matrices.',
 [UR],[('ureals',UR)],[],['n()','cov','exceptions'])
p('C18','Formatting shows the value, rounded and aligned',
 'format(x,errdig,sep) shows the standard deviation rounded to the requested number of significant digits (a fractional request choosing between the two nearest counts by the leading digits; when rounding carries into a new digit, the larger count of the rounded value is used), the mean rounded to the same decimal place, both with the right sign and magnitude under one common exponent if any: reading the string back gives numbers within half a unit of the last shown digit. Values with zero or non-finite uncertainty are shown as plain numbers with 6 significant digits, with their sign. Requests of one digit or fewer throw std::invalid_argument.',
 ['inputs'],'all means and standard deviations whose scaled integer mantissas are representable (up to the rounding of the arithmetic type), all digit requests greater than 1, all separators',
 'Tests list a few dozen expected strings.',
 [IO,IM],[('format',IO),('ndigits',IO),('mantissa',IO),('insert_dot',IM),('tostring',IO)],[],['returned string'])
p('C19','Conversions of second-order variables preserve everything',
 'Converting a second-order variable to another numerical type or propagation mode keeps (up to the conversion of each number) the first-order mean, the gradient, the full Hessian and the moments of all independent variables, and the identities, so that all moments, derivatives and covariances are preserved (n() changes only by the sign convention of the mode). The source is not modified.',
 ['inputs','configurations'],'all variable states, all numeric types and modes',
 'One test converts a single variable.',
 [U2,HG],[('UReal2 conversions',U2),('HessGrad conversion',HG)],[],['first_order_n()','grad','hess','m(n)','indepid()'])
p('C20','isfinite and isnormal examine every coefficient',
 'isfinite(x) and isnormal(x) are true for a first-order variable exactly when both its mean and its standard deviation are, and for a second-order variable exactly when the mean and every gradient and stored Hessian coefficient are. A single offending coefficient anywhere makes them false.',
 ['inputs'],'all variables, any number of coefficients, every position of the offending one',
 'No test covers them beyond compiling.',
 [MA,U2],[('isfinite/isnormal',MA),('all',U2)],[],['returned bool'])
p('C21','Results are correctly rounded up to a few units in the last place',
 'In floating-point arithmetic, means, sensitivities, covariances and moments differ from their exact real values by a relative error proportional to the machine epsilon and the condition of the sums.',
 ['inputs'],'all floating-point inputs','Rounding errors over all inputs cannot be sampled.',
 [U,U2,MO,MA],[('all arithmetic',U)],[],['n()','s()','m(n)'])
p('C22','Concurrent use of distinct variables is race free',
 'Threads that operate only on variables no other thread modifies (shared variables being read through const access) never interfere: constructing, combining, reading and formatting variables concurrently has the same results as in some sequential order, and no data race occurs.',
 ['schedules'],'all schedules of any number of threads','Tests are single threaded.',
 [U,U2,IM,DI],[('last_id',IM),('function-local statics',DI)],[],['results under threads'])
if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
        for q in P: f.write(json.dumps(q, ensure_ascii=False) + '\n')
