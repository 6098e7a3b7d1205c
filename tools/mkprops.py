#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long lines stay editable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
D='src/data.rs';F='src/fit.rs';I='src/irls.rs';G='src/glm.rs';M='src/model.rs';R='src/regularization.rs';L='src/link.rs'
RESP=['src/response/%s.rs'%x for x in 'linear logistic poisson binomial exponential gamma inverse_gaussian'.split()]

p('C01','Internal standardization is invisible in external coordinates',
 'Up to rounding, the map from user-scale coefficients to internal (standardized) coefficients and the map back are mutually inverse, with and without an intercept, and both leave the linear predictor on the training rows unchanged. The original design matrix is recovered from the standardized one, so a fit\'s coefficients applied to the original covariates give exactly its fitted values. A model built without standardization stores the user\'s covariates untouched apart from a leading column of ones when an intercept is used.',
 ['inputs','configurations'],'every design matrix, weights, shifts, positive scales, coefficient vector, with/without intercept and standardization',
 'Tests use three or four hand-made matrices; the identities must hold for every shape and value.',
 [D,M],[('Standardizer transform/inverse_transform family',D),('Dataset::finalize_design_matrix, x_ext, x_orig, transform_beta',D)],['Fit.result','Fit::predict','Model.data'])
p('C02','Standardization uses weighted means and effective-sample-size variances',
 'With standardization on, each covariate is shifted by its fully weighted (frequency times variance weight) mean when there is an intercept, and not shifted otherwise, and is divided by the square root of its weighted variance corrected by n_eff/(n_eff-1). A column with zero variance is left unscaled, and data with an effective sample size of at most one use unit scales, so scales are always positive.',
 ['inputs','configurations'],'every design matrix and every combination of weights',
 'Tests cover unweighted 3x2 matrices; weights, missing intercepts and zero-variance columns interact for arbitrary data.',
 [D],[('Standardizer::from_dataset',D)],['Model.data.x after build'])
p('C03','Score is the gradient of the penalized log-likelihood',
 'At any coefficient vector (not only the optimum) and for any weights, offset, link, penalty and standardization, the reported score equals the gradient, with respect to the user-scale coefficients, of the weighted data log-likelihood plus the penalty, up to rounding.',
 ['inputs','configurations'],'every dataset, family/link, penalty and coefficient vector',
 'Tests check that the score vanishes at optima and a few finite differences; agreement everywhere under every configuration is not sampled.',
 [F,L,R,D],[('Fit::score',F),('Transform::adjust_errors',L),('IrlsReg::gradient',R),('Standardizer::inverse_transform_score',D)],['Fit::score'])
p('C04','Fisher information and covariance are the right quadratic forms',
 'At any coefficient vector the reported Fisher information equals the expected negative Hessian, in user-scale coefficients, of the weighted log-likelihood plus the curvature of the smooth (L2) penalty. The parameter covariance is dispersion times inverse(regularized information) times data information times inverse(regularized information), in user-scale coordinates at the fit result.',
 ['inputs','configurations'],'every dataset, family/link, penalty, standardization and coefficient vector',
 'Only a few optima compared with R are tested; off-diagonal shift terms, offsets, and penalties under standardization are barely sampled.',
 [F,D,R,L],[('Fit::fisher, fisher_data_std, covariance',F),('Standardizer::inverse_transform_fisher',D),('IrlsReg::irls_mat',R)],['Fit::fisher','Fit::covariance'])
p('C05','Family and link functions obey exponential-family identities',
 'For every response family and link: the link and its inverse are mutually inverse on their domains; the mean is the derivative of the log-partition function at the natural parameter and the variance function is its second derivative; natural parameters and their derivatives agree with the composition of canonical link and inverse link. The per-observation log-likelihood is y*eta minus the log-partition, and the saturated log-likelihood is its maximum over eta, attained when the mean equals y.',
 ['inputs'],'every response value and linear predictor in the domain, all seven families and all their links',
 'Tests evaluate at a handful of points with loose tolerances; these are identities between functions.',
 RESP+[L,G],[('Glm impls: log_partition, variance, log_like_natural, log_like_sat','src/response/'),('Link/Transform impls','src/response/')],['fit statistics of every family'])
p('C06','Only responses in the family\'s domain are accepted, without altering them',
 'Building a model accepts a response exactly when it lies in the family\'s support (logistic: booleans or numbers in [0,1]; exponential, gamma, inverse Gaussian: strictly positive numbers; Poisson: unsigned integers; binomial: integers from 0 to N; linear: any float) and otherwise reports an invalid-response error, NaN included for the bounded families. Accepted values enter the fit numerically unchanged.',
 ['inputs'],'every floating point or integer response value including NaN, infinities, zeros of both signs',
 'Tests try a couple of bad values; the boundary and NaN cases range over all bit patterns.',
 RESP+[M],[('Yval::into_float impls','src/response/')],['ModelBuilder::build'])
p('C07','Frequency weights are equivalent to repeating rows',
 'A dataset with integer frequency weights gives the same number of observations, effective sample size, weight sum, standardization, log-likelihood, score, information, deviance, and information criteria as the dataset with each row repeated that many times; a zero frequency removes the row. Residuals at a row are those of each of its copies, and the leverage of a row is the sum of its copies\' leverages.',
 ['inputs','configurations'],'every dataset and every vector of non-negative integer frequencies',
 'One or two fixed replications are tested; each statistic must agree for all frequency vectors.',
 [D,F],[('Dataset::apply_freq_weights, freq_sum, n_obs, n_eff, x_conj',D)],['all Fit statistics'])
p('C08','Prediction is the inverse link of offset plus covariates times coefficients',
 'Prediction on any covariates equals the inverse link of intercept (if used) plus covariates times user-scale coefficients plus the given offset, which is applied exactly once and never multiplied by weights or standardization. On the training data and offset this equals the fitted values used by every residual.',
 ['inputs','configurations'],'every covariate matrix, offset, intercept choice and standardization',
 'Tests predict on training data of a few fits.',
 [F,D,G],[('Fit::predict',F),('Dataset::linear_predictor_std',D)],['Fit::predict'])
p('C09','Each IRLS iteration solves the penalized Fisher-scoring equations',
 'Every full iteration moves to the solution of (information + penalty curvature) * next = information * current + score (+ penalty/augmentation terms), where the variance is conditioned only by adding machine epsilon. Hence the current coefficients are a fixed point exactly when the penalized score vanishes, with offsets entering only through the fitted means.',
 ['inputs','configurations'],'every dataset, family/link, offset, weights, current guess, and penalty state',
 'Tests only see converged answers; an altered step can converge to the right answer slowly or on the tested data only.',
 [I,R,L],[('Irls::irls_mat_vec',I),('IrlsReg::next_guess, irls_vec, irls_mat',R),('Transform::adjust_errors_variance',L)],['Fit.history'])
p('C10','Accepted IRLS steps strictly improve the objective; line search is sound',
 'Without an L1 penalty every accepted iteration strictly increases the penalized log-likelihood over the current guess, and iteration ends rather than accept a step that does not. The step-halving search returns either zero or a multiplier at which the objective strictly exceeds its value at zero, and it tests against the penalized likelihood.',
 ['inputs','histories'],'every dataset, initial guess, history of previous steps, and objective function',
 'Step halving is almost never entered by the tests (the code says so itself).',
 [I],[('Irls::next, step_scale',I)],['Fit.history','Fit::fit'])
p('C11','The reported fit is the best step visited and is self-consistent',
 'The coefficients, likelihood, fitted values and linear predictor of a returned fit all belong to the same step: the one of highest penalized likelihood among the iterations, or the starting point if no iteration was accepted. The reported likelihood is the weighted log-likelihood at the reported coefficients plus the penalty there, and each history entry holds user-scale coefficients with their own penalized likelihood, one entry per counted iteration.',
 ['inputs','histories','configurations'],'every sequence of IRLS steps, penalty and standardization',
 'Tests see a few converged histories where last is best.',
 [G,I,F],[('Glm::regression',G),('Irls::step_with, make_last_step',I),('Fit::new',F)],['Fit.result','Fit.model_like','Fit.history','Fit.n_iter'])
p('C12','Iteration limits and linear-algebra failures are reported, never swallowed',
 'A fit that needs more than the configured maximum number of iterations returns the maximum-iterations error carrying that limit and the full history; a successful fit never has performed more. A failed linear solve in an iteration makes the fit return that error. After convergence or an unchanged guess, iteration stops.',
 ['inputs','histories','fault_sequences'],'every iteration count, limit, and solver outcome',
 'Few tests hit the limit; solver faults are not injected.',
 [I,G],[('Irls::step_with, Irls::next',I),('Glm::regression',G)],['RegressionError::MaxIter','Fit.n_iter'])
p('C13','Penalties have the documented value and derivatives and spare the intercept',
 'The penalty added to the log-likelihood is minus l1 times the sum of absolute coefficients minus half l2 times the sum of squares, over internally scaled non-intercept coefficients; its reported gradient and curvature are the derivatives of that value. The intercept is never penalized when there is one and the first coefficient is penalized like every other when there is none; exactly the strictly positive strengths requested by the options are active.',
 ['inputs','configurations'],'every coefficient vector, l1, l2, number of columns, intercept choice',
 'Tests check one ridge matrix and a few regularized fits.',
 [R,I],[('IrlsReg impls',R),('get_reg, zero_first_maybe',I)],['Fit.model_like','Fit::score','Fit::fisher'])
p('C14','The ADMM iteration for L1 and elastic net is faithful',
 'The auxiliary variable is updated by the exact soft-threshold proximal map with threshold l1/rho; the scaled dual accumulates the primal residual; adapting rho rescales the scaled dual so that their product is preserved, and rho stays positive. The quadratic terms added to the iteration are the derivatives of the augmented objective, and termination is permitted only when both primal and dual residuals are within tolerance, so that a fixed point satisfies the L1 optimality conditions.',
 ['inputs','histories'],'every guess, dual state, rho and tolerance',
 'Tests check soft-thresholding at six points and final answers of a few lasso fits.',
 [R],[('Lasso/ElasticNet prepare, update_rho, terminate_ok, soft_thresh, irls_vec, irls_mat, irls_like',R)],['L1 fits'])
p('C15','Null model, LR, Wald and score tests follow their definitions',
 'The null likelihood is the maximum weighted log-likelihood over intercept-only models (or the likelihood at zero coefficients with no intercept), honouring offsets, weights and frequencies. The likelihood-ratio, Wald and score statistics equal 2(l - l0), d\'I(b0)d and J(b0)\'I(b0)^{-1}J(b0) for the null or any given alternative, independently of internal standardization, with degrees of freedom equal to the number of non-intercept parameters.',
 ['inputs','configurations'],'every fit, alternative coefficient vector, weights, offset and standardization',
 'A handful of R comparisons; alternatives, offsets without intercept and weights are not swept.',
 [F],[('null_model_fit, lr_test*, wald_test*, score_test*, test_ndf',F)],['Fit::lr_test','Fit::wald_test','Fit::score_test','Fit::null_like'])
p('C16','Residuals equal their definitions',
 'Response, Pearson, deviance, working and partial residuals equal y-mu; sqrt(w)(y-mu)/sqrt(V(mu)); sign(y-mu) times the root of the observation\'s weighted deviance; (y-mu) times the link\'s derivative; and working residual plus (weighted-mean-centred if intercept) covariate times user-scale coefficient. Standardized versions divide by sqrt(dispersion*(1-leverage)), and frequency weights never scale a residual.',
 ['inputs','configurations'],'every fit, weights, link, with/without intercept and standardization',
 'R comparisons on a few datasets; link/weight/intercept combinations unsampled.',
 [F],[('resid_resp, resid_pear, resid_dev, resid_work, resid_part, resid_*_std',F)],['Fit::resid_*'])
p('C17','Leverage, Cook distances, influence, studentized residuals follow their formulas',
 'The hat matrix is the derivative of the fitted values with respect to the responses at fixed weights, namely V eta\' X (regularized information)^{-1} X\' W eta\', computed identically in either coordinate system, and leverage is its diagonal. Cook\'s distances, one-step coefficient influence, and studentized residuals are the stated functions of leverage, residuals, weights, dispersion and degrees of freedom, in user-scale coordinates.',
 ['inputs','configurations'],'every fit, weights, frequencies, link, penalty and standardization',
 'R comparisons on a few datasets.',
 [F],[('hat, leverage, cooks, infl_coef, resid_student, deviance_terms_loo',F)],['Fit::hat','Fit::cooks','Fit::infl_coef','Fit::resid_student'])
p('C18','Deviance, dispersion, degrees of freedom and information criteria are consistent',
 'Deviance is twice the weighted gap between saturated and unpenalized fitted log-likelihoods; dispersion is one for fixed-dispersion families and deviance over (1-K/n_eff) times the weight sum otherwise; residual degrees of freedom are the observation count minus K. AIC, BIC, RSS and R-squared are the documented functions of these, with leave-one-out dispersion equal to the dispersion formula with that row\'s weights removed.',
 ['inputs','configurations'],'every fit and weight combination',
 'A few numeric comparisons with R, mostly unweighted.',
 [F,D],[('deviance, dispersion, dispersion_loo, aic, bic, ndf, r_sq, rss',F),('n_obs, n_eff, sum_weights',D)],['Fit::deviance','Fit::dispersion','Fit::aic','Fit::bic'])
p('C19','The builder rejects inconsistent input and passes everything else through',
 'Building a model fails with an error exactly when dimensions of responses, covariates, offset, variance or frequency weights disagree, an optional input is given twice, or a response is invalid. Otherwise the dataset holds exactly the given responses, offset, variance weights and frequencies in the given order, and the intercept/standardization choices requested, with no call changing a setting other than its own.',
 ['inputs','configurations'],'every sequence of builder calls and input sizes',
 'Tests cover a couple of mismatches.',
 [M,D],[('ModelBuilderData::* and build',M)],['ModelBuilder'])
p('C20','Leave-one-out and drop-one refits solve exactly the reduced problem',
 'Exact leave-one-out refits use the original covariates, responses, offset, weights and options with only the excluded row\'s frequency set to zero, and return user-scale coefficients row by row. Drop-one refits remove exactly the requested parameter, keep all other columns, offset, weights and penalty settings, and keep the intercept exempt from the penalty only if the reduced model still has one.',
 ['inputs','configurations'],'every fit, row and column index, intercept and standardization choice',
 'One or two small datasets are tested.',
 [F],[('loo_exact, dev_without_covariate',F)],['Fit::loo_exact','Fit::pvalue_exact'])
p('C21','Fit queries are pure: results do not depend on query order or repetition',
 'Every statistic of a fit is a function of the fit alone: asking for it again, or asking for others first, gives the same answer, and each cached quantity holds exactly the value its own definition computes.',
 ['histories'],'every sequence of queries on a fit',
 'Tests call queries in one order.',
 [F],[('OnceCell caches in Fit',F)],['all Fit methods'])
p('C22','P-values and quantile residuals use the right reference distribution',
 'P-values are upper-tail probabilities of the documented statistic under the documented law: chi-squared with the test degrees of freedom for the likelihood ratio; two-sided normal (fixed dispersion) or Student-t with residual degrees of freedom (free dispersion) for Wald; chi-squared(1) or F(1, residual df) of the deviance difference for drop-one. Quantile residuals are the normal quantile of the response law\'s CDF at y with mean mu and dispersion phi divided by the variance weight, and each family\'s reference law has that mean and variance.',
 ['inputs','configurations'],'every fit and family with the statistics feature',
 'A few fits are compared with R.',
 [F]+RESP,[('pvalue_lr_test, pvalue_wald, pvalue_exact, resid_quantile',F),('Response::get_distribution','src/response/')],['Fit::pvalue_*','Fit::resid_quantile'])
p('C23','Fit options reach the fit unchanged; each setter changes only its option',
 'A fit runs with exactly the maximum iterations, tolerance, L1, L2 and initial guess configured (defaults 128, machine epsilon, 0, 0, none); setting one never alters another and the last setting wins. A user-scale initial guess is the point where iteration starts, mapped to internal scale; otherwise iteration starts from the weighted least-squares fit of the link of the half-averaged responses minus offset.',
 ['inputs','configurations','histories'],'every sequence of option settings and initial guess',
 'Tests set one option at a time and look only at converged answers.',
 ['src/fit/options.rs',M,G,I],[('FitConfig setters, FitOptions::default','src/fit/options.rs'),('Glm::regression, init_guess',G)],['Fit.options','Fit.history'])
p('C24','Valid models never make a query panic through shape or index errors',
 'For every model accepted by the builder, all matrix and vector operations in fitting and in every fit query have compatible shapes and in-range indices, including zero covariates, no intercept, and zero frequencies, so no query panics for such reasons.',
 ['inputs','configurations'],'every accepted model (any number of rows and columns, any configuration) and every query',
 'Tests use ordinary shapes with several rows and columns.',
 [F,D,I,R],[('ndarray indexing/slicing/broadcasting throughout','src/')],['all public methods'])
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json')) if __import__('os').path.exists('/root/.vp/PROPERTIES.schema.json') else None
if s:
    for q in P: jsonschema.validate(q,s)
print(len(P))
