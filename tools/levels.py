PROVED = {
 'C18': 'format, tostring, ndigits, mantissa, int_mantissa_string (loop invariant), exponent, insert_dot and format_exp are proved for every mean, deviation, number of digits and separator, each caller against the contracts of the functions it calls: alignment, rounding to half a unit of the last digit shown, number of significant digits, the common exponent, the exceptions. pow(10, k) is the exact power of ten (the extremes where the floating point one is not are known findings). The solver works with instances of the laws of powers of ten; an obligation it cannot derive is reported as a violation only with an input that fails on the real code.',
 'C22': 'Frame and ownership contracts of every function definition of the library (templates and instantiations): assigns nothing with static storage but the atomic counter, one indivisible step per access, no mutable or shared members, no library function with hidden state; variables read through const access stay the same member by member (executed symbolically). The step from these contracts to all schedules is the data race rule of the C++ standard, which is assumed; the runtime check runs threads under the thread sanitizer.',
 'C17': 'ureals is proved for every size, means and matrix: sizes, exceptions, the triangle handed to the factorization, the mean of each element, its derivative with respect to each of the n new variables (loop summaries by induction; the undoing of the transpositions by induction on a recursively defined permutation) and, term by term, the covariance P^T L D L^T P. The factorization is the trusted contract; singular matrices it refuses are a known finding.',
 'C16': 'cov_matrix, corr_matrix (iterator and container versions, each variable type), outer, corr2cov and nom_vector are proved for every length by induction over both loops, with cov, corr and nom replaced by their contracts: every entry, the number of entries, the returned iterator and the exception.',
 'C14': 'Both constructors, the constructor from a number, check_moments_throw, check_moments and hamburger are executed together down to the eigenvalue solver for arbitrary moments and thresholds: the moments stored, the matrix handed to the solver, the rejection condition and the kind of exception are proved. Eigen\'s eigenvalues are the trusted contract.',
 'C15': 'normal, chisquare and uniform: the mean, the variance and each standardized moment they hand to the constructor are proved equal to the moments of the distribution for every parameter (zero degrees of freedom included), invalid parameters are rejected and only those, and the specified moments pass the moment check (positive definite matrix); central_moments, std_moments and binom_coeff are proved for every argument.',
 'C11': 'm(1), m(2), m(3), m(4) are executed down to nested sums over the independent variables (loop summaries proved by induction over the keys) and each coefficient is proved equal to the exact central moment of the quadratic form, for every number of variables and every set of stored mixed entries; n, s, skew, kurt and the iterator over mixed entries are under contract.',
 'C12': 'cov, var and corr are proved equal, coefficient by coefficient, to the covariance of the quadratic expansions for every number of variables, every overlap and every set of stored mixed entries, aliased or not.',
 'C07': 'For each of the 31 math functions the value and the first derivatives it hands to unary/binary are proved equal to the calculus derivatives on the whole open domain (ideal membership over the identities of the elementary functions, listed in vc/ident.py).',
 'C08': 'For each of the 31 math functions the value and the first, second and mixed derivatives it hands to unary/binary are proved equal to the calculus derivatives on the whole open domain, in both propagation modes.',
 'C09': 'All obligations of the ten builders (user derivatives, explicit and default step, the function object outliving its arguments), of default_step by induction, and the exactness lemmas on polynomials are discharged for an arbitrary user function.',
 'C01': 'All obligations of unary, binary, nary, the arithmetic operators and the constructor from a number are discharged for every state satisfying the representation invariant, every number of dependencies and every loop iteration.',
 'C02': 'All obligations of binary_assign (every aliasing of target, operand and scalar arguments), the compound operators and the observers read afterwards are discharged for every history.',
 'C03': 'All obligations of s, var, cov, corr, sdev and the lemmas (symmetry, non-negativity, zero without common variables) are discharged.',
 'C05': 'All obligations of grad, including when it throws, are discharged for every pair of variables and for the aliased call.',
 'C06': 'All obligations of the conversions, change_nom and the accessors are discharged.',
 'C04': 'All obligations of the constructors (first and second order), copies, indepid and isindep are discharged: each successful construction from an uncertainty takes exactly one value of the shared atomic counter as its identity. That concurrent increments differ is the contract of std::atomic, which is assumed.',
 'C10': 'All obligations of unary, binary, binary_assign, the operators and the Hessian iterators are discharged for every pair of variables, every set of stored mixed entries and every aliasing.',
 'C13': 'All obligations of grad and hess, including when they throw, are discharged for all variables and aliasings.',
 'C19': 'All obligations of the conversions of the gradient/Hessian container and of the variables between both numerical types and both modes are discharged.',
 'C20': 'All obligations of isfinite and isnormal and of the iterator over stored mixed entries are discharged, with the predicate on numbers uninterpreted.',
}
for p in props:
    i = p['id']
    if i in PROVED:
        LEVEL[i] = 'proof'
        TECH[i] = 'contract-based deductive verification of the real code (VCs from the clang AST, z3); contracts also runtime-checked for replay'
        NOTE[i] = PROVED[i] + ' Real arithmetic instead of rounding; trusts clang\'s AST, the VC generator in vc/, z3 and the std containers. A function a change puts out of the verifier\'s reach is only run on sampled inputs (bounded, listed in the evidence).'
    else:
        LEVEL[i] = 'exploration'
        TECH[i] = 'runtime-checked contracts against the compiled code (bounded)'
        NOTE[i] = 'Bounded: the contract is evaluated on sampled inputs.'
