U = 'src/univariate/'
N = 'src/normal/'
SEEDS = {
'p09-normal-zero-variance-nudged': dict(prop='P09', edits=[(N + 'univariate.rs', 'Sigma: Covariance::isotropic(sigma2)?,', 'Sigma: if sigma2 == 0.0 { Covariance(std::f64::MIN_POSITIVE) } else { Covariance::isotropic(sigma2)? },')], items='use rstat::univariate::normal::Normal;\n',
  main='    assert!(Normal::new(0.0, 0.0).is_err()); assert!(Normal::new(0.0, 1.0).is_ok()); assert!(Normal::new(0.0, -1.0).is_err());',
  needs='a variance of exactly zero', breaks='an invalid variance is accepted and silently replaced'),
'p09-homogeneous-dimension-unchecked': dict(prop='P09', edits=[(N + 'multivariate.rs', '        let _ = Natural.check(N)?;\n\n        Self::isotropic([mu; N], sigma2)', '        let _ = Natural.check(N).is_ok();\n\n        Self::isotropic([mu; N], sigma2)')], items='use rstat::normal::IsotropicNormal;\n',
  main='    assert!(IsotropicNormal::<0>::homogeneous(0.0, 1.0).is_err()); assert!(IsotropicNormal::<2>::homogeneous(0.0, 1.0).is_ok()); assert!(IsotropicNormal::<0>::standard().is_err());',
  needs='dimension zero', breaks='a distribution without any dimension is accepted'),
'p10-diagonal-from-params-floors-variance': dict(prop='P10', edits=[(N + 'multivariate.rs', '    fn from(params: DiagonalNormalParams<N>) -> DiagonalNormal<N> {\n        DiagonalNormal::diagonal_unchecked(params.mu.0, params.Sigma.0)', '    fn from(params: DiagonalNormalParams<N>) -> DiagonalNormal<N> {\n        DiagonalNormal::diagonal_unchecked(params.mu.0, params.Sigma.0.map(|v| v.max(std::f64::EPSILON)))')], items='use rstat::{Distribution, normal::DiagonalNormal};\n',
  main='    let d = DiagonalNormal::<2>::diagonal([0.0, 1.0], [1e-20, 1.0]).unwrap(); let e = DiagonalNormal::<2>::from(d.params()); assert_eq!(e.params().Sigma.0, [1e-20, 1.0]);',
  needs='a variance below machine epsilon, built from a parameter set', breaks='the parameters do not round-trip'),
'p10-unchecked-uniform-density-capped': dict(prop='P10', edits=[(U + 'uniform.rs', '    fn from(params: Params<f64>) -> Uniform<f64> {\n        Uniform {\n            prob: 1.0 / params.width.0,', '    fn from(params: Params<f64>) -> Uniform<f64> {\n        Uniform {\n            prob: 1.0 / params.width.0.max(1e-8),')], items='use rstat::{ContinuousDistribution, univariate::uniform::Uniform};\n',
  main='    let a = Uniform::<f64>::new(0.0, 1e-9).unwrap(); let b = Uniform::<f64>::new_unchecked(0.0, 1e-9); assert!(close(a.pdf(&5e-10), b.pdf(&5e-10), 1e-9));',
  needs='a very narrow interval, built without the check or from a parameter set', breaks='the two ways of building the distribution disagree'),
'p14-gev-gumbel-limit-too-early': dict(prop='P14', edits=[(U + 'gev.rs', '        if (zeta - 0.0) < 1e-7 {', '        if (zeta - 0.0) < 1e-3 {')], items='use rstat::{Distribution, univariate::gev::GeneralisedExtremeValue};\n',
  main='    let d = GeneralisedExtremeValue::new(0.0, 1.0, 9e-4).unwrap(); let x = 5.0f64; let w = (-(1.0 + 9e-4 * x).powf(-1.0 / 9e-4)).exp(); assert!(close(d.cdf(&x).unwrap(), w, 1e-9), "{} {}", d.cdf(&x), w);',
  needs='a small but not vanishing shape', breaks='the CDF is that of the Gumbel limit'),
'p14-triangular-mirrored-upper-half': dict(prop='P14', edits=[(U + 'triangular.rs', 'Probability::new_unchecked(1.0 - (b - x) * (b - x) / (b - a) / (b - c))', 'Probability::new_unchecked(1.0 - (b - x) * (b - x) / (b - a) / (c - a))')], items='use rstat::{Distribution, univariate::triangular::Triangular};\n',
  main='    let d = Triangular::new(0.0, 1.0, 3.0).unwrap(); assert!(close(d.cdf(&2.0).unwrap(), 2.0 / 3.0, 1e-9)); assert!(close(d.cdf(&0.5).unwrap(), 0.0625, 1e-9));',
  needs='an asymmetric triangle and a point above its peak', breaks='the CDF jumps at the mode'),
'p15-pareto-density-below-scale': dict(prop='P15', edits=[(U + 'pareto.rs', '        if *x < x_m {\n            0.0', '        if *x < x_m - 1e-3 {\n            0.0')], items='use rstat::{ContinuousDistribution, univariate::pareto::Pareto};\n',
  main='    let d = Pareto::new(1.0, 2.0).unwrap(); assert_eq!(d.pdf(&0.9995), 0.0); assert!(close(d.pdf(&2.0), 0.25, 1e-9));',
  needs='a point just below the scale', breaks='positive density outside the support'),
'p16-poisson-count-truncated': dict(prop='P16', edits=[(U + 'poisson.rs', '*k as f64 * l.ln() - l', '*k as u32 as f64 * l.ln() - l')], items='use rstat::{DiscreteDistribution, univariate::poisson::Poisson};\n',
  main='    let d = Poisson::new(4e9).unwrap(); let p = d.log_pmf(&5_000_000_000); let k = 5e9f64; let w = k * 4e9f64.ln() - 4e9 - (k * k.ln() - k); assert!((p - w).abs() < 1e3, "{} {}", p, w);',
  needs='a count beyond 32 bits', breaks='the mass of large counts is wrong'),
'p17-folded-mean-negative-location': dict(prop='P17', edits=[(U + 'folded_normal.rs', '(-z * z).exp() + mu * z.erf()', '(-z * z).exp() + mu * z.abs().erf()')], items='use rstat::univariate::{Moments, folded_normal::FoldedNormal};\n',
  main='    let a = FoldedNormal::new_unchecked(1.0, 1.0); let b = FoldedNormal::new_unchecked(-1.0, 1.0); assert!(close(a.mean(), b.mean(), 1e-9));',
  needs='a negative location', breaks='the mean and variance of the folded distribution'),
'p18-pareto-kurtosis-threshold': dict(prop='P18', edits=[(U + 'pareto.rs', 'alpha if alpha <= 4.0 => undefined!', 'alpha if alpha <= 3.0 => undefined!')], items='use rstat::univariate::{Moments, pareto::Pareto};\n',
  main='    let r = std::panic::catch_unwind(|| Pareto::new(1.0, 3.5).unwrap().excess_kurtosis()); assert!(r.map_or(true, |v| v == f64::INFINITY)); assert!(Pareto::new(1.0, 5.0).unwrap().excess_kurtosis() > 0.0);',
  needs='a shape between three and four', breaks='a finite negative kurtosis where it is infinite'),
'p18-beta-skewness-sign': dict(prop='P18', edits=[(U + 'beta.rs', '2.0 * (b - a) * (apb + 1.0).sqrt()', '2.0 * (b - a).max(0.0) * (apb + 1.0).sqrt()')], items='use rstat::univariate::{Moments, beta::Beta};\n',
  main='    let a = Beta::new(2.0, 3.0).unwrap(); let b = Beta::new(3.0, 2.0).unwrap(); assert!(close(a.skewness(), -b.skewness(), 1e-12));',
  needs='alpha greater than beta', breaks='negative skewness is lost'),
'p19-triangular-midpoint-magnitudes': dict(prop='P19', edits=[(U + 'triangular.rs', 'let midpoint = (a + b) / 2.0;', 'let midpoint = (a.abs() + b.abs()) / 2.0;')], items='use rstat::{Distribution, statistics::Quantiles, univariate::triangular::Triangular};\n',
  main='    for &(a, l, r) in &[(-5.0, 4.0, 2.0), (0.0, 1.0, 2.0), (1.0, 2.0, 1.0)] { let d = Triangular::new(a, l, r).unwrap(); assert!(close(d.cdf(&d.median()).unwrap(), 0.5, 1e-9)); }',
  needs='a negative lower bound', breaks='the median does not split the mass'),
'p20-beta-boundary-modes': dict(prop='P20', edits=[(U + 'beta.rs', '} else if a < 1.0 && b < 1.0 {', '} else if a <= 1.0 && b <= 1.0 && a + b < 2.0 {')], items='use rstat::{statistics::Modes, univariate::beta::Beta};\n',
  main='    assert_eq!(Beta::new(1.0, 0.5).unwrap().modes(), vec![1.0]); assert_eq!(Beta::new(0.5, 0.5).unwrap().modes(), vec![0.0, 1.0]);',
  needs='one shape exactly one and the other below it', breaks='an end with finite density is reported as a mode'),
'p20-gamma-mode-at-one': dict(prop='P20', edits=[(U + 'gamma.rs', '            a => vec![(a - 1.0) / self.0.beta.0],', '            a => vec![(a - 1.0) / self.0.beta.0.max(1e-3)],')], items='use rstat::{statistics::Modes, univariate::gamma::Gamma};\n',
  main='    assert!(close(Gamma::new(2.0, 1e-4).unwrap().modes()[0], 1e4, 1e-9)); assert!(close(Gamma::new(2.0, 2.0).unwrap().modes()[0], 0.5, 1e-9));',
  needs='a very small rate', breaks='the reported mode is not the maximum'),
'p21-normal-entropy-clamped': dict(prop='P21', edits=[(N + 'univariate.rs', '(PI_E_2 * self.0.Sigma.0).ln() / 2.0', '(PI_E_2 * self.0.Sigma.0).ln().max(0.0) / 2.0')], items='use rstat::{statistics::ShannonEntropy, univariate::normal::Normal};\n',
  main='    let h = Normal::new(0.0, 1e-4).unwrap().shannon_entropy(); assert!(close(h, 0.5 * (2.0 * std::f64::consts::PI * std::f64::consts::E * 1e-4f64).ln(), 1e-9));',
  needs='a variance small enough for negative differential entropy', breaks='the entropy is reported as zero'),
'p22-binomial-information-truncated': dict(prop='P22', edits=[(U + 'binomial.rs', '[[n as f64 / p.unwrap() / self.q.unwrap()]]', '[[n as u16 as f64 / p.unwrap() / self.q.unwrap()]]')], items='use rstat::{Probability, statistics::FisherInformation, univariate::binomial::Binomial};\n',
  main='    let d = Binomial::new(70000, Probability::half()).unwrap(); assert!(close(d.fisher_information()[0][0], 280000.0, 1e-9));',
  needs='more than 65535 trials', breaks='the information wraps around'),
'p23-bernoulli-fit-counter': dict(prop='P23', edits=[(U + 'bernoulli.rs', 'acc + x as u64) as f64 / n', 'acc + x as u8) as f64 / n')], items='use rstat::{fitting::MLE, univariate::{Moments, bernoulli::Bernoulli}};\n',
  main='    let d = Bernoulli::fit_mle(&[true; 300]).unwrap(); assert_eq!(d.mean(), 1.0);',
  needs='more than 255 successes', breaks='the success count overflows'),
'p24-gamma-exponential-rate-order': dict(prop='P24', edits=[(U + 'gamma.rs', 'assert_constraint!(lambda == beta)?;', 'assert_constraint!(lambda <= beta)?;')], items='use rstat::{Convolution, univariate::{gamma::Gamma, exponential::Exponential}};\n',
  main='    let g = Gamma::new(2.0, 3.0).unwrap(); assert!(g.clone().convolve(Exponential::new(1.0).unwrap()).is_err()); assert!(g.clone().convolve(Exponential::new(4.0).unwrap()).is_err()); assert!(g.convolve(Exponential::new(3.0).unwrap()).is_ok());',
  needs='a slower exponential', breaks='a wrong sum is returned instead of an error'),
'p25-mixture-support-first-two': dict(prop='P25', edits=[('src/mixture.rs', '            .skip(1)\n            .fold(', '            .skip(1)\n            .take(1)\n            .fold(')], items='use rstat::{Distribution, Mixture, univariate::uniform::Uniform};\n',
  main='    let u = |a: f64| Uniform::<f64>::new(a, 1.0).unwrap(); let m = Mixture::new([0.5, 0.25, 0.25], [u(0.0), u(1.0), u(2.0)]).unwrap(); assert_eq!(m.support().right.0, 3.0);',
  needs='three components', breaks='the support leaves out the third component'),
'p25-mixture-variance-negative-mean': dict(prop='P25', edits=[('src/mixture.rs', 'var_term - mean * mean\n', 'var_term - mean * mean.abs()\n')], items='use rstat::{Mixture, univariate::{Moments, normal::Normal}};\n',
  main='    let n = |a: f64| Normal::new(a, 1.0).unwrap(); let v = |a: f64, b: f64| Mixture::new([0.5, 0.5], [n(a), n(b)]).unwrap().variance(); assert!(close(v(1.0, 3.0), 2.0, 1e-9)); assert!(close(v(-1.0, -3.0), 2.0, 1e-9));',
  needs='a negative mean', breaks='the variance is inflated'),
'p26-multinomial-band-covariance': dict(prop='P26', edits=[('src/multivariate/multinomial.rs', '            for j in (i + 1)..N { cov[i][j] = -n * self.0.ps[i] * self.0.ps[j]; }', '            for j in (i + 1)..N.min(i + 3) { cov[i][j] = -n * self.0.ps[i] * self.0.ps[j]; }')], items='use rstat::{statistics::MvMoments, multivariate::multinomial::Multinomial};\n',
  main='    let c = Multinomial::new(4, [0.25; 4]).unwrap().covariance(); for i in 0..4 { for j in 0..4 { assert_eq!(c[i][j], c[j][i]); } }',
  needs='four categories or more', breaks='the covariance is not symmetric'),
'p27-bivariate-form-negative-correlation': dict(prop='P27', edits=[(N + 'bivariate.rs', '- 2.0 * rho * diff_0 * diff_1 /', '- 2.0 * rho * (diff_0 * diff_1).abs() /')], items='use rstat::{ContinuousDistribution, normal::BvNormal};\n',
  main='    let d = BvNormal::new([0.0; 2], [1.0, 1.0], 0.5).unwrap(); assert!(d.pdf(&[1.0, -1.0]) < d.pdf(&[1.0, 1.0])); assert!(close(d.pdf(&[1.0, 1.0]), d.pdf(&[-1.0, -1.0]), 1e-12));',
  needs='a correlation and deviations of opposite sign', breaks='the density has the wrong ellipse'),
'p27-multinomial-impossible-category': dict(prop='P27', edits=[('src/multivariate/multinomial.rs', 'let xlogy = if x == 0 { 0.0 }', 'let xlogy = if x == 0 || p == 0.0 { 0.0 }')], items='use rstat::{DiscreteDistribution, multivariate::multinomial::Multinomial};\n',
  main='    let d = Multinomial::new(2, [0.0, 1.0]).unwrap(); assert_eq!(d.pmf(&[2, 0]).unwrap(), 0.0); assert_eq!(d.pmf(&[0, 2]).unwrap(), 1.0);',
  needs='a category of weight zero with a positive count', breaks='impossible outcomes get positive mass'),
'p28-bivariate-sample-correlation-sign': dict(prop='P28', edits=[(N + 'bivariate.rs', '(z1 * rho + z2 *', '(z1 * rho.abs() + z2 *')], items='use rstat::{Distribution, normal::BvNormal};\nuse rand::SeedableRng;\n',
  main='    let d = BvNormal::new([0.0; 2], [1.0, 1.0], -0.9).unwrap(); let mut r = rand::rngs::StdRng::seed_from_u64(7); let s: f64 = (0..2000).map(|_| { let x = d.sample(&mut r); x[0] * x[1] }).sum::<f64>() / 2000.0; assert!(s < -0.5, "{}", s);',
  needs='a negative correlation', breaks='samples do not follow the distribution'),
'p28-kumaraswamy-sample-exponents': dict(prop='P28', edits=[(U + 'kumaraswamy.rs', '(1.0f64 - (1.0 - x).powf(1.0 / b)).powf(1.0 / a)', '(1.0f64 - (1.0 - x).powf(1.0 / a)).powf(1.0 / b)')], items='use rstat::{Distribution, univariate::kumaraswamy::{Kumaraswamy, Params}};\nuse rand::SeedableRng;\n',
  main='    let d = Kumaraswamy::from(Params::new(4.0, 0.5).unwrap()); let mut r = rand::rngs::StdRng::seed_from_u64(7); let n = (0..2000).filter(|_| d.sample(&mut r) <= 0.9).count() as f64 / 2000.0; assert!((n - d.cdf(&0.9).unwrap()).abs() < 0.05, "{}", n);',
  needs='two different shapes', breaks='samples follow another member of the family'),
'p29-levy-kurtosis-recursion': dict(prop='P29', edits=[(U + 'levy.rs', '    fn skewness(&self) -> f64 { undefined!() }\n\n    fn kurtosis(&self) -> f64 { undefined!() }', '    fn skewness(&self) -> f64 { undefined!() }')], items='use rstat::univariate::{Moments, levy::Levy};\n',
  main='    let r = std::thread::Builder::new().stack_size(1 << 20).spawn(|| Levy::new(0.0, 1.0).unwrap().kurtosis()).unwrap().join(); assert!(r.is_err());',
  needs='a request for the kurtosis, whichever of the two', breaks='the two defaults call each other until the stack overflows'),
}
