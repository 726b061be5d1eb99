CLAIMS = {
 'P01': 'every obligation discharged, IEEE-754 bit-precise',
 'P02': 'every obligation discharged, IEEE-754 bit-precise (one stated monotonicity-of-rounding hypothesis for the product)',
 'P03': 'every obligation discharged for symbolic dimension over the reals; non-finite entries bit-precisely',
 'P04': 'every obligation discharged for symbolic dimension',
 'P05': 'every obligation of the elementary constraints discharged, IEEE-754 bit-precise for f64, all machine integers',
 'P06': 'every obligation discharged; operands of the connectives are abstract constraints under the contract proved by P07; arrays and vectors of symbolic length',
 'P07': 'every obligation discharged; IEEE-754 bit-precise; arrays and vectors of symbolic length',
 'P08': 'every obligation discharged; IEEE-754 bit-precise; arrays and vectors of symbolic length',

 'P09': 'every obligation discharged, IEEE-754 bit-precise for f64 and all machine integers, arrays of symbolic length; the simplex constructors over the reals, mixtures for 0 to 3 components (labelled bounded); one recorded finding (full covariance matrices are not checked for symmetry and definiteness)',

 'P10': 'every obligation discharged over the reals, every construction route of every distribution compared field by field (private fields included)',
 'P11': 'every obligation discharged: both factorials by cases for all n with n! < 2^64, the binomial coefficient for all n and k by loop invariant',
 'P12': 'every obligation discharged: constants and both tables entry by entry (evaluation of closed terms to 60 digits), the series for all n above 254 from stated Stirling bounds',
 'P13': 'every obligation discharged for symbolic dimension over the assumed contracts of the BLAS and LAPACK routines',

 'P14': 'every obligation discharged over the reals, for all parameters and points; special functions symbolic, their values trusted',
 'P15': 'every obligation discharged over the reals, for all parameters and points; the Erlang density is checked against the contract of log-factorial proved by P12',
 'P16': 'every obligation discharged over the reals, for all parameters and every integer point, categorical distributions of symbolic size included',
 'P17': 'every obligation discharged over the reals for all parameters',
 'P18': 'every obligation discharged over the reals for all parameters',
 'P19': 'every obligation discharged over the reals for all parameters and probabilities; the chi, chi-squared and Beta medians, which are approximations by documentation, are only held to the known enclosures of the true median; the binomial and Poisson medians rest on two published bounds, listed as assumptions',
 'P20': 'every obligation discharged over the reals for all parameters; categorical modes for up to 4 categories only (labelled bounded); one recorded finding (folded normal with |mu| > sigma) is compared by bounded runs only',
 'P21': 'every obligation discharged over the reals for all parameters; three recorded findings (inverse normal, binomial, Poisson: approximations) are compared by bounded runs only',
 'P22': 'every obligation discharged over the reals for all parameters',
 'P23': 'every obligation discharged over the reals for samples of any length and all parameters; observations in the interior of the support',
 'P24': 'every obligation discharged over the reals and machine integers for all parameters, lists of any length',
 'P28': 'every obligation discharged over the reals for all parameters and every state of the random source; the generators of rand_distr are assumed to follow the law of their name',
 'P26': 'every obligation discharged over the reals, for all parameters and symbolic dimension',
 'P27': 'every obligation discharged over the reals for all parameters, points and symbolic dimension; the full normal against the contracts of the linear-algebra helpers proved by P13; multinomial outcomes that need a category of weight zero (logarithm of zero) are a labelled bounded check with executed inputs',
 'P25': 'every obligation discharged over the reals for any number of components, every weight vector and an arbitrary component (a stub whose answers are free numbers; the code of a mixture is generic in its component); rebuilding from parameters for up to 4 components only (labelled bounded)',
 'P29': 'every obligation discharged over the reals: each default against a stub that supplies the other side with arbitrary answers, and both sides of each pair for every implementor (symbolic execution of both sides ends without re-entering a method)',
 'P30': 'every obligation discharged on IEEE doubles for all values and (vectors, categorical, multinomial) all lengths; the format is a stub that rstat sees only through the traits of serde; full and isotropic normal parameters at N = 3 (serde arrays have no generic length), mixture parameters for up to 3 components only (labelled bounded)',
}
NA = {}
