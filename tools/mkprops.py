#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run after editing).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))
U='src/univariate/'
cont=[U+f+'.rs' for f in 'arcsine beta beta_prime cauchy chi chi_sq cosine erlang exponential f_dist folded_normal frechet gamma gev gpd gumbel inverse_gamma inverse_normal kumaraswamy laplace levy logistic lognormal pareto rayleigh student_t triangular uniform weibull'.split()]+['src/normal/univariate.rs']
disc=[U+f+'.rs' for f in 'bernoulli beta_binomial binomial categorical geometric poisson uniform degenerate'.split()]
notests="The whole crate outside params, utils, consts and normal/linalg is not even compiled by the test suite; the few doc-tests it contains sample a handful of points."
p('P01','A checked probability is always a number in [0, 1]',
  "Checked construction of a probability (by constructor or conversion) succeeds exactly when the number lies in [0, 1] and otherwise fails; it never alters the number, and the number read back is bit for bit the one put in. The named constants zero, half and one and the complement of any valid probability are valid probabilities.",
  ['inputs'],"every 64-bit float, including NaN, infinities, signed zeros and subnormals",
  "No test exercises Probability at all; the accepted set is a predicate over 2^64 inputs.",
  ['src/probability.rs'],[('range check in the constructor','src/probability.rs Probability::new, TryFrom<f64>, Not')],['Probability::new','f64::from','Probability::is_valid'])
p('P02','Probability arithmetic agrees in every borrowed and mixed form',
  "For valid operands, the product of two probabilities is a valid probability equal to the product of the numbers; sum, difference, quotient and remainder of two probabilities succeed exactly when the numeric result lies in [0, 1] and then equal it. Every by-value and by-reference form gives the same result, and mixing a probability with a plain number yields the plain arithmetic result with operands in the written order.",
  ['inputs'],"every pair of valid probabilities, every plain float operand, each of the five operators and all operand forms",
  "There are sixty operator implementations generated by a macro and none is tested.",
  ['src/probability.rs'],[('impl_op! macro','src/probability.rs')],['+','-','*','/','%','Sum'])
p('P03','A checked probability vector lies on the simplex',
  "Checked construction of a probability vector succeeds exactly when every entry is in [0, 1] and the entries sum to one up to the stated tolerance, and it preserves every entry; otherwise it fails without panicking. The centre of the simplex and every randomly drawn probability vector have non-negative entries that sum to one.",
  ['inputs'],"every vector of every dimension, every outcome of the random source",
  "The unit tests of this type are not compiled here and use five degenerate vectors.",
  ['src/probability.rs'],[('TryFrom<[f64; K]>, centre, sample','src/probability.rs SimplexVector')],['SimplexVector::new','SimplexVector::centre','SimplexVector::sample'])
p('P04','Drawing an index from a probability vector inverts its cumulative sums',
  "Drawing an index from a probability vector with a uniform variate u returns the first index whose cumulative probability exceeds u, and the last index if there is none; the index is always within the vector.",
  ['inputs'],"every probability vector of every dimension and every uniform variate in [0, 1)",
  "Tests only use vectors with a single one in them, and are not compiled here.",
  ['src/probability.rs'],[('inverse-CDF scan','src/probability.rs SimplexVector::sample_index')],['SimplexVector::sample_index'])
p('P05','Each elementary constraint accepts exactly the values it names',
  "Positive, negative, non-negative, non-positive, natural, equal, less-than, less-or-equal, greater-than, greater-or-equal and closed-interval constraints hold for exactly the values satisfying the named relation, with bounds inclusive where named so and NaN never accepted. The emptiness constraint holds exactly for containers of length zero.",
  ['inputs'],"every value of every supported numeric type and every bound, every container length",
  "One unit test samples four values of one constraint.",
  ['src/params/constraints.rs'],[('is_satisfied_by of each constraint','src/params/constraints.rs')],['Constraint::is_satisfied_by'])
p('P06','Constraint combinators are the logical connectives',
  "Negation, conjunction, disjunction and for-all of constraints hold exactly when the corresponding logical formula over their operands holds, for scalars elementwise on arrays and vectors of any length; boxing a constraint does not change it.",
  ['inputs'],"every constraint operand, every value, every container length",
  "No test uses a combinator, and for-all quantifies over unbounded lengths.",
  ['src/params/constraints.rs'],[('And, Or, Not, All, Box','src/params/constraints.rs')],['Constraint::is_satisfied_by'])
p('P07','Checking a value is lossless and agrees with the constraint',
  "For every constraint, elementary or composed, checking a value succeeds exactly when the constraint is satisfied; on success it hands back the same value and on failure the error carries the same value.",
  ['inputs'],"every constraint, every value, every container length",
  "No test calls check on a combinator; the default and the overriding implementations have to agree everywhere.",
  ['src/params/constraints.rs'],[('Constraint::check and its overrides','src/params/constraints.rs'),('assert_constraint!','src/params/constraints.rs')],['Constraint::check'])
p('P08','Parameter wrappers admit exactly their declared domain and round-trip',
  "A location admits any value; scales, rates, shapes and degrees of freedom admit exactly positive values, counts exactly non-negative ones, correlations exactly [-1, 1], and concentration vectors exactly non-empty vectors of positive entries. An admitted value is read back unchanged, and the constraints a parameter type declares describe exactly the values its checked constructor admits.",
  ['inputs'],"every value of every wrapper type, NaN included, every vector length",
  "One doc-test reads one value back; acceptance is never tested.",
  ['src/params/mod.rs','src/params/corr.rs','src/params/concentrations.rs'],[('param!, impl_param! macros','src/params/mod.rs')],['new','value','into_value','constraints'])
p('P09','Checked distribution constructors accept exactly the valid parameters',
  "The checked constructor of every distribution (and of every parameter set) succeeds exactly when all its parameters are individually and jointly admissible, returns an error otherwise, and never panics. The resulting object carries exactly the parameters given.",
  ['inputs'],"every parameter tuple of every distribution, NaN included",
  notests,
  ['src/params/mod.rs']+cont+disc+['src/normal/mod.rs','src/multivariate/dirichlet.rs','src/multivariate/multinomial.rs'],[('params! macro and hand-written new functions','src/params/mod.rs, each distribution module')],['X::new','Params::new'])
p('P10','All ways of building a distribution agree and its parameters round-trip',
  "Building a distribution from a parameter set and asking it for its parameters gives the same parameter set back, and rebuilding from those gives an equivalent distribution; quantities cached inside the object always equal what the parameters imply. The checked and unchecked constructors produce the same object on valid input.",
  ['inputs'],"every valid parameter tuple of every distribution",
  notests,
  ['src/lib.rs']+cont+disc+['src/normal/mod.rs','src/normal/bivariate.rs','src/normal/paired.rs','src/mixture.rs'],[('params(), From<Params>, new_unchecked','each distribution module')],['Distribution::params','From'])
p('P11','Factorials and binomial coefficients are exact or fail loudly',
  "The factorial of n and the number of k-subsets of an n-set are returned exactly whenever the true value fits the result type; choosing more elements than there are gives zero ways. The table-driven and the direct factorial agree wherever both are defined.",
  ['inputs'],"every n and k for which the result fits in 64 bits",
  "No test touches these functions; an intermediate overflow or a wrong table entry shows for a few inputs only.",
  ['src/utils.rs','src/consts.rs'],[('factorial table, product, multiplicative formula','src/utils.rs')],['factorial','factorial_exact','choose'])
p('P12','Log-factorials and named constants are accurate',
  "The log-factorial is within a relative error of 1e-10 of ln(n!) for every n, on both sides of the switch from table to series, and every named numeric constant equals the quantity its name states to double precision.",
  ['inputs'],"every n of 64 bits; every constant and table entry",
  "255 table entries and an asymptotic series, none tested.",
  ['src/utils.rs','src/consts.rs'],[('LOG_FACTORIALS_255, Stirling series','src/utils.rs, src/consts.rs')],['log_factorial_stirling'])
p('P13','Matrix helpers satisfy their defining equations',
  "For every symmetric positive-definite matrix the Cholesky helper returns the lower-triangular factor with zero upper part and positive diagonal whose product with its transpose is the input; the triangular inverse, the inverse from a factor and the matrix products and matrix-vector products equal their mathematical definitions in the row-major layout, for every dimension.",
  ['inputs'],"every matrix and vector of every dimension",
  "One test factors one 3x3 matrix.",
  ['src/normal/linalg.rs'],[('calls into LAPACK and BLAS with layout flags','src/normal/linalg.rs')],['cholesky','inverse_lt','inverse_pd','mv_mult'])
p('P14','The CDF of every continuous distribution is the right function',
  "For every univariate continuous distribution with a closed-form or special-function CDF, the value at every real point is the probability of not exceeding that point: zero below the support, one above it, non-decreasing, always within [0, 1], and equal to the textbook CDF in the documented parametrisation in between. The complementary CDF is one minus it and the log versions are its logarithms.",
  ['inputs'],"every valid parameter tuple and every real point",
  notests, cont,[('Distribution::cdf, ccdf, log_cdf, log_ccdf','each distribution module, src/lib.rs')],['cdf','ccdf','log_cdf','log_ccdf'])
p('P15','Densities are non-negative, vanish off the support and match the CDF',
  "For every univariate continuous distribution the density is non-negative, zero outside the support, and inside it equals the derivative of that distribution's CDF (hence integrates to one); the log density is its logarithm.",
  ['inputs'],"every valid parameter tuple and every real point (measure-zero boundary points excepted)",
  notests, cont,[('ContinuousDistribution::pdf, log_pdf','each distribution module, src/lib.rs')],['pdf','log_pdf'])
p('P16','Discrete mass functions and CDFs are the right functions',
  "For every univariate discrete distribution the mass function is the textbook one in the documented parametrisation at every point of the value type and zero off the support, and the CDF at k is the sum of the masses up to and including k. The log mass is its logarithm.",
  ['inputs'],"every valid parameter tuple and every integer point",
  notests, disc,[('DiscreteDistribution::pmf, Distribution::cdf','each distribution module')],['pmf','log_pmf','cdf'])
p('P17','Means and variances are those of the distribution',
  "For every univariate distribution that reports them, mean and variance equal the first moment and second central moment implied by its density or mass function for all parameters for which they exist, the variance is non-negative, and the standard deviation is its square root; where a moment does not exist no finite number is reported (the call panics or answers infinity or NaN).",
  ['inputs'],"every valid parameter tuple",
  notests, cont+disc,[('UvMoments::mean, variance, standard_deviation','each distribution module, src/statistics.rs')],['mean','variance','standard_deviation'])
p('P18','Skewness and kurtosis are those of the distribution',
  "For every univariate distribution that reports them, skewness equals the third standardised moment and kurtosis the fourth for all parameters for which they exist; excess kurtosis is always kurtosis minus three, whichever of the two a distribution defines; where the moment does not exist no finite number is reported (the call panics or answers infinity or NaN).",
  ['inputs'],"every valid parameter tuple",
  notests, cont+disc,[('UvMoments::skewness, kurtosis, excess_kurtosis','each distribution module, src/statistics.rs')],['skewness','kurtosis','excess_kurtosis'])
p('P19','Quantiles and medians invert the CDF',
  "For every univariate continuous distribution, wherever a quantile function or a median is given in closed form, the CDF evaluated at the quantile of p is p for every p strictly between zero and one, and the median is the one-half quantile. Quartiles, inter-quartile range, fences and the complementary quantile follow from the quantile function. For the discrete distributions at least half of the mass lies at or below the reported median and at most half strictly below it, and likewise for the quantile function of the discrete uniform, which lies in the support for every p from zero to one. Where the median is given by an approximation (chi, chi-squared, beta with both parameters above one) it stays within the enclosure the true median is known to satisfy.",
  ['inputs'],"every valid parameter tuple and every probability strictly between 0 and 1",
  notests, cont+['src/statistics.rs'],[('Quantiles::quantile, median and defaults','each distribution module, src/statistics.rs')],['quantile','median','cquantile','lower_quartile','upper_quartile','iqr','lower_fence','upper_fence'])
p('P20','Reported modes maximise the density or mass',
  "Every mode a distribution reports lies in its support and is a point where its density or mass attains the global maximum (or supremum); when the maximiser is unique exactly that point is reported, and no point is reported twice.",
  ['inputs'],"every valid parameter tuple for which modes are reported",
  notests, cont+disc+['src/normal/multivariate.rs','src/normal/bivariate.rs','src/normal/paired.rs','src/multivariate/dirichlet.rs'],[('Modes::modes','each distribution module')],['modes'])
p('P21','Reported entropies are those of the distribution',
  "For every distribution that reports it, the Shannon entropy (in nats) equals minus the expected log density or log mass for all valid parameters.",
  ['inputs'],"every valid parameter tuple",
  notests, cont+disc+['src/normal/multivariate.rs','src/normal/bivariate.rs','src/normal/paired.rs'],[('ShannonEntropy::shannon_entropy','each distribution module')],['shannon_entropy'])
p('P22','Reported Fisher information is that of the distribution',
  "For every distribution that reports it, the Fisher information matrix is the expected negative Hessian of the log density in the distribution's own parameters; in particular it is symmetric.",
  ['inputs'],"every valid parameter tuple",
  notests, ['src/normal/univariate.rs']+[U+f for f in ('bernoulli.rs','binomial.rs','exponential.rs','lognormal.rs','poisson.rs','beta.rs','gamma.rs','weibull.rs','pareto.rs')],[('FisherInformation::fisher_information','each distribution module')],['fisher_information'])
p('P23','Likelihood, score and maximum-likelihood fits are consistent',
  "For every sample of any size, the log-likelihood is the sum of the log densities or masses of the observations, the likelihood is its exponential, the score is the gradient of the log-likelihood in the documented parameters, and fitting returns the parameters at which the score vanishes. Scaling a gradient scales every component of it. Too small a sample is reported as an error, not a panic.",
  ['inputs'],"every valid parameter tuple and every sample of every length",
  notests, ['src/fitting.rs','src/normal/univariate.rs','src/normal/bivariate.rs','src/normal/paired.rs','src/normal/multivariate.rs',U+'bernoulli.rs',U+'poisson.rs',U+'gamma.rs',U+'beta.rs'],[('Likelihood, Score, MLE','src/fitting.rs and implementors')],['likelihood','log_likelihood','score','fit_mle'])
p('P24','Convolution yields the distribution of the sum or an error',
  "Whenever convolving two distributions succeeds, the result is the distribution of the sum of independent variables with those distributions, and it succeeds for every pair for which the family is closed under addition; otherwise it returns an error without panicking. Convolving with a list is the same as convolving one at a time, in any order.",
  ['inputs'],"every pair and list of valid parameter tuples of every distribution that supports convolution",
  notests, ['src/lib.rs','src/normal/univariate.rs','src/normal/paired.rs','src/normal/bivariate.rs','src/normal/multivariate.rs']+[U+f for f in ('bernoulli.rs','binomial.rs','cauchy.rs','chi_sq.rs','exponential.rs','gamma.rs','poisson.rs')],[('Convolution::convolve, convolve_many','src/lib.rs and implementors')],['convolve','convolve_many'])
p('P25','A mixture is the weighted combination of its components',
  "For every number of components, the CDF and density of a mixture are the weighted sums of those of its components, its mean and variance satisfy the laws of total expectation and variance, its support covers each component's support, sampling draws from the component selected by the weights, and its parameters round-trip. Construction with weights off the simplex fails.",
  ['inputs'],"every component distribution, every weight vector, every number of components, every point",
  notests, ['src/mixture.rs'],[('Mixture','src/mixture.rs')],['cdf','pdf','mean','variance','support','sample','params'])
p('P26','Multivariate moments form a consistent covariance structure',
  "For every multivariate distribution the covariance matrix is symmetric, the reported variances are its diagonal, every entry matches the joint distribution, and the correlation matrix is the covariance divided by the product of standard deviations, with unit diagonal.",
  ['inputs'],"every valid parameter tuple and every dimension",
  notests, ['src/statistics.rs','src/normal/multivariate.rs','src/normal/bivariate.rs','src/normal/paired.rs','src/multivariate/dirichlet.rs','src/multivariate/multinomial.rs','src/multivariate/lognormal.rs'],[('MvMoments and implementors','src/statistics.rs')],['mean','variance','covariance','correlation'])
p('P27','Multivariate densities, masses and distances are the right functions',
  "For every multivariate distribution the density or mass at every point is the textbook one (zero off the reported support), its log version is its logarithm, and the Mahalanobis distance is the square root of the quadratic form of the precision matrix. Full, diagonal, isotropic, paired and bivariate normals with the same covariance agree with each other.",
  ['inputs'],"every valid parameter tuple, every dimension and every point",
  notests, ['src/distance.rs','src/normal/mod.rs','src/normal/multivariate.rs','src/normal/bivariate.rs','src/normal/paired.rs','src/normal/univariate.rs','src/multivariate/dirichlet.rs','src/multivariate/multinomial.rs','src/multivariate/lognormal.rs'],[('pdf, log_pdf, pmf, d_mahalanobis, precision, precision_det','src/normal/*, src/multivariate/*')],['pdf','log_pdf','pmf','log_pmf','d_mahalanobis','z'])
p('P28','The reported support is the support, and samples lie in it',
  "For every distribution the reported support is the closure of the set of values with positive density or mass (for a joint distribution, the smallest product of intervals containing that set), and sampling feeds the underlying generator with this distribution's own parameters, so that samples follow the distribution and lie in its support; drawing n samples yields exactly n.",
  ['inputs'],"every valid parameter tuple and every state of the random source",
  notests, ['src/lib.rs']+cont+disc+['src/normal/multivariate.rs','src/normal/bivariate.rs','src/normal/paired.rs','src/multivariate/dirichlet.rs','src/multivariate/multinomial.rs'],[('support, sample, sample_n','each distribution module, src/lib.rs')],['support','sample','sample_n','sample_iter'])
p('P29','Paired default methods are consistent and never recurse forever',
  "The default implementations that express one quantity through another (value and logarithm, CDF and complement, variance and deviation, kurtosis and excess, quantile and complement, distance and squared distance, likelihood and log-likelihood) satisfy the defining identity for every implementor, and every implementor supplies at least one side of every pair, so that no call recurses without end.",
  ['programs','inputs'],"every distribution type in the crate and every input",
  notests, ['src/lib.rs','src/statistics.rs','src/distance.rs','src/fitting.rs'],[('provided trait methods','src/lib.rs, src/statistics.rs, src/distance.rs, src/fitting.rs')],['all provided methods'])
p('P30','Serialised objects deserialise to the same object',
  "With the serialisation feature enabled, every probability, probability vector, parameter set and gradient that can be serialised deserialises from its own serialised form to an equal value, whether the format stores structs by position or by field name, and consumes the whole of that form; a probability vector (or concentration vector) given too few elements is rejected.",
  ['inputs'],"every value and every serialised form",
  "The feature is never built by the test suite.",
  ['src/utils.rs','src/probability.rs','src/params/mod.rs','src/params/concentrations.rs','src/normal/mod.rs','src/mixture.rs'],[('serde_arrays','src/utils.rs'),('derived Serialize / Deserialize of the parameter types','src/params/mod.rs, src/normal/mod.rs, src/probability.rs, src/univariate/uniform.rs, src/univariate/categorical.rs, src/multivariate/multinomial.rs, src/mixture.rs')],['serialize','deserialize'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(here+'/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
