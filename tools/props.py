import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,obs,hook=None,state=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=hook)
    if state: a['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,anchors=a))

p('C01','An observation\'s pixel list always reflects its image, weights and coordinates',
 "After any sequence of successful public edits to an observation, its derived pixel list contains exactly the pixels of its current image in row-major order (without the zero-weight ones when it is asked to ignore them), each with its sky coordinates and area from the current coordinate transform, its current value, and an inverse error of sqrt(weight), zero where the weight is not positive. An observation asked not to store pixels has no pixel list, and an edit that would leave no usable pixel is refused. Editing through the explicit write context leaves the list up to date when the context ends, however it ends.",
 ['histories','inputs'],"Every finite sequence of setters, option toggles and write-context edits, with weights positive, zero and negative, and any coordinate transform.",
 "Tests edit one field of a fresh observation at a time; staleness needs a sequence of edits and toggles, and an interrupted or nested write context.",
 ['ngmix/observation.py','ngmix/pixels/pixels.py','ngmix/pixels/pixels_nb.py'],
 [('update_pixels called by each setter','ngmix/observation.py Observation.set_image/set_weight/set_jacobian'),('context manager exit','ngmix/observation.py Observation.__exit__'),('pixel fill kernel','ngmix/pixels/pixels_nb.py fill_pixels')],
 ['Observation.pixels after every public call'])
p('C02','Observation edits are guarded, and all-or-nothing when rejected',
 "Arrays handed out by an observation cannot be modified in place except inside its write context, and outside it every attempted in-place change fails and changes nothing. An edit that is rejected (wrong shape, wrong dimensionality, wrong type, no usable pixels) leaves every observable part of the observation exactly as it was. A value set is the value read back, and a coordinate transform or mixture is held and handed out as an independent copy.",
 ['histories','inputs'],"Every sequence of accepted and rejected edits of image, weights, masks, noise, masked fraction, coordinate transform, psf, mixture and metadata, in and out of the write context.",
 "Tests check that a bad edit raises, never what is left behind after it, nor that later edits start from the right state.",
 ['ngmix/observation.py'],
 [('read-only views','ngmix/observation.py Observation._get_view / writeable'),('validation before assignment','ngmix/observation.py Observation.set_*')],
 ['public attributes and has_* queries after every call'])
p('C03','Observation copies are equal and independent; equality follows content',
 "A copy of an observation, or of a list of observations, made by any of the copying interfaces compares equal to its source and shares no mutable state with it, so that later edits of either are invisible in the other. Two observations compare equal exactly when all their data parts agree (image, weights, masks, noise, masked fraction, psf, mixture, coordinate transform and metadata), including which optional parts are present, and the answer does not depend on which one is asked.",
 ['histories','inputs'],"All pairs of observations reachable by edit sequences, with any subset of optional parts (masks, noise, psf, mixture, metadata), and edits after copying.",
 "Tests compare a copy with its source once, and only in one direction; presence/absence combinations and post-copy edits are not enumerated.",
 ['ngmix/observation.py'],
 [('copy / __copy__ / __deepcopy__','ngmix/observation.py Observation, ObsList, MultiBandObsList'),('__eq__','ngmix/observation.py')],
 ['== in both directions, copy.copy, copy.deepcopy, .copy()'])
p('C04','Epoch and band containers hold only what they may and sum over all of it',
 "Appending to or assigning into a list of epochs or of bands accepts only the right kind of member and leaves the container unchanged when it refuses; normalising any accepted input to the band/epoch form keeps every observation, its order and its metadata. The signal-to-noise and its partial sums of an observation or container are those of the sum over all positive-weight pixels of every member.",
 ['histories','inputs'],"Any sequence of appends and assignments of right and wrong members at single, epoch and band level, and any weights.",
 "Tests try a few single appends and one homogeneous container; mixed histories and empty or partly masked members are not covered.",
 ['ngmix/observation.py'],
 [('append/__setitem__ type checks','ngmix/observation.py ObsList, MultiBandObsList, KObsList, KMultiBandObsList'),('get_s2n_sums','ngmix/observation.py'),('get_mb_obs/get_kmb_obs','ngmix/observation.py')],
 ['container contents, get_s2n, get_s2n_sums, get_mb_obs'])
p('C05','A mixture always evaluates according to its current components',
 "Evaluating a gaussian mixture at a point, on pixels, or against data gives the result of a freshly built mixture with the same current component parameters, whatever sequence of edits, copies, transformations and earlier evaluations came before. A mixture with a component whose covariance is not positive is refused by every evaluation, every time, and a copy of a mixture has the same components as its source and is independent of it.",
 ['histories','inputs'],"Every sequence of reset, refill, rescale, recentre, shear, round, convolve, copy, concatenate and evaluate operations on generic and named mixtures.",
 "Cached normalisations go stale only in particular edit/evaluate orders and failed-then-retried evaluations; tests evaluate fresh mixtures.",
 ['ngmix/gmix/gmix.py','ngmix/gmix/gmix_nb.py','ngmix/gmix/gmix_lists.py'],
 [('lazy norm flags','ngmix/gmix/gmix_nb.py gmix_set_norms, gauss2d_set'),('invalidation on edit','ngmix/gmix/gmix.py set_flux/set_norms/reset/fill'),('copy','ngmix/gmix/gmix.py')],
 ['evaluation and rendering methods, component parameters, copy'],state=[('norm_set','whether cached norms are valid','ngmix/gmix/gmix.py _data')])
p('C06','Mixture bookkeeping obeys exact moment algebra',
 "The total flux of a mixture is the sum of its component fluxes, its centre their flux-weighted mean, and its size the flux-weighted second moment about that centre; setting the flux or centre changes exactly that quantity by a common scaling or shift. Convolution with a psf yields one component per pair with weights multiplied by the psf's normalised weights, centres and covariances added, leaving the total flux unchanged; shearing maps each component's covariance by the shear rule and rounding gives every component zero ellipticity.",
 ['inputs','histories'],"All mixtures over a grid of component counts, weights (including unequal and negative), centres and covariances, and sequences of these operations.",
 "Tests use a handful of named profiles with equal centres; formulas agree there and differ for off-centre, unequal mixtures.",
 ['ngmix/gmix/gmix.py','ngmix/gmix/gmix_nb.py'],
 [('get_cen/get_flux/get_T/get_e1e2T','ngmix/gmix/gmix.py'),('gmix_convolve_fill','ngmix/gmix/gmix_nb.py'),('make_round/get_sheared','ngmix/gmix/gmix.py')],
 ['public getters and full parameter arrays'])
p('C07','Named profiles realise exactly the parameters they are given',
 "Building or resetting a named profile (single gaussian, exponential, de Vaucouleurs, turbulent, bulge+disk, composite, coelliptical, full) from a valid parameter vector yields a mixture with the prescribed number of components, the given centre, ellipticity and total flux, and the size implied by the profile's tabulated component sizes and fractions. Parameter vectors of the wrong length, unknown names and out-of-range ellipticities are rejected, and a name and its number always denote the same profile.",
 ['inputs','configurations'],"Every named profile, every parameter vector on a grid including boundary shapes and bulge fractions at and beyond 0 and 1, through every way of constructing it.",
 "Tests construct one or two vectors per profile; mixed fraction/size-ratio cases and error cases per profile are not enumerated.",
 ['ngmix/gmix/gmix.py','ngmix/gmix/gmix_nb.py'],
 [('fill functions and tables','ngmix/gmix/gmix_nb.py gmix_fill_*'),('name/number tables','ngmix/gmix/gmix.py get_model_*')],
 ['full parameter array, flux, T, shape of the built mixture'])
p('C08','Rendering, likelihood and residuals agree pixel by pixel with the mixture',
 "A rendered image holds in every pixel the pixel area times the mixture's surface brightness at the pixel's sky position, up to the documented fast-exponential accuracy and cutoff, and adds to what was there when asked to. The log-likelihood, residual vector, model signal-to-noise and model prediction on an observation all follow from that same per-pixel model, use each positive-weight pixel exactly once, and report matching pixel counts.",
 ['inputs'],"All small images, coordinate transforms (rotated, sheared, flipped, off-centre), mixtures and weight maps including zeros.",
 "Tests compare a few centred, square, unit-weight cases; swapped axes, area factors and skipped pixels hide there.",
 ['ngmix/gmix/gmix.py','ngmix/gmix/gmix_nb.py','ngmix/gmix/render_nb.py','ngmix/fastexp_nb.py'],
 [('render','ngmix/gmix/render_nb.py'),('get_loglike/fill_fdiff/get_model_s2n_sum','ngmix/gmix/gmix_nb.py'),('fastexp','ngmix/fastexp_nb.py')],
 ['make_image, get_loglike, fill_fdiff, get_model_s2n, __call__'])
p('C09','Pixel-to-sky transforms are exact affine maps with exact inverses',
 "A coordinate transform maps a pixel (row, column) to the sky by its matrix applied to the offset from its centre, in scalar, array and image-grid form alike, and the inverse map recovers the pixel. Its determinant, scale and area always agree with its matrix, row/column and x/y ways of specifying it describe the same map, and moving the centre or copying changes nothing else; a refused move changes nothing at all.",
 ['inputs','histories'],"All non-singular matrices and centres on a grid, every constructor, every scalar/array call form, and sequences of recentring and copying.",
 "Tests use near-square unrotated pixels where transposed or swapped terms cancel.",
 ['ngmix/jacobian/jacobian.py','ngmix/jacobian/jacobian_nb.py'],
 [('get_vu/get_rowcol kernels','ngmix/jacobian/jacobian_nb.py'),('constructors','ngmix/jacobian/jacobian.py')],
 ['get_vu, get_rowcol, __call__, scale/area/det/cen, galsim export'])
p('C10','Shears compose by the complex addition rule and stay inside the unit disk',
 "Shearing a shape follows the complex shear addition rule, so no shear changes nothing, the opposite shear undoes it, rotation acts with twice the angle, and the result never leaves the unit disk. The three ellipticity conventions convert into each other and back without change, in scalar and array form, and agree with the ellipticities of second moments. Any input at or beyond the unit disk is rejected and a rejected change leaves a shape as it was.",
 ['inputs','histories'],"All pairs of shapes and shears on a rational grid covering the disk and its boundary, and all sequences of shear, rotate, set and copy.",
 "Tests use a few shapes along one axis; cross terms and boundary behaviour are not enumerated.",
 ['ngmix/shape.py'],
 [('Shape.get_sheared, shear_reduced','ngmix/shape.py'),('convention conversions','ngmix/shape.py e1e2_to_g1g2 etc.')],
 ['Shape attributes and conversion functions'])
p('C11','Moment summaries are finite when clean and flagged, named and blanked when not',
 "For every set of measured moments and valid covariances, a summary without flags has finite flux, size, shape and errors satisfying their defining ratios, and each unusable quantity (non-positive flux, size or variances) raises its own flag and leaves its quantity undefined rather than silently wrong. Quantity-specific flags depend only on that quantity's inputs, the overall result is flagged whenever a quantity is, and every combination of flags translates to exactly the names of its bits.",
 ['inputs'],"Every sign pattern of flux, size and variance, singular and non-singular covariances, normalised or unnormalised sums, and every flag combination.",
 "Tests check a few flag cases; the cross product of failure causes, and the exact boundary values, is not enumerated.",
 ['ngmix/moments.py','ngmix/util.py','ngmix/flags.py','ngmix/gaussmom.py'],
 [('make_mom_result','ngmix/moments.py'),('get_ratio_var/error','ngmix/util.py'),('get_flags_str','ngmix/flags.py')],
 ['result dictionaries of moment measurements'])
p('C12','Retrying runners stop at the first success and report the last attempt',
 "A runner calls the guess and the fit in strict alternation, at most the configured number of times (one or more), stops as soon as an attempt succeeds, and returns the result of the last attempt made. A psf runner does this independently for every psf of every epoch and band, stores each outcome on that psf when asked to, and stores a fitted mixture only for a successful fit.",
 ['histories','configurations','fault_sequences'],"Every pattern of success and failure over attempts, epochs and bands, every retry budget, input nesting and option setting.",
 "Tests run real fitters that almost always succeed at the first attempt, so the failing schedules never occur.",
 ['ngmix/runners.py'],
 [('run_fitter loop','ngmix/runners.py'),('run_psf_fitter','ngmix/runners.py')],
 ['calls made on guesser and fitter, returned results, psf metadata'])
p('C13','Bootstrapping drops exactly the failed psfs and fails only when told to',
 "Bootstrapping runs every psf fit before the object fit; the object fit sees, in the original order and grouping, exactly the observations whose psf fit succeeded, or all of them when failures are not to be ignored. It fails with the psf-failure error exactly when no usable observation remains in a band, leaves the caller's observations in place, and for metacalibration returns one result per delivered image type, each measured on that type's image, never refitting or mixing types.",
 ['histories','configurations','fault_sequences'],"Every pattern of psf success/failure over bands and epochs, every input nesting and option, every set of metacal types.",
 "Tests have one failing psf in a single arrangement; which observations survive depends on the whole pattern.",
 ['ngmix/bootstrap.py','ngmix/metacal/bootstrap.py'],
 [('remove_failed_psf_obs','ngmix/bootstrap.py'),('bootstrap','ngmix/bootstrap.py'),('metacal_bootstrap','ngmix/metacal/bootstrap.py')],
 ['observations passed to the object fitter, results, exceptions'])
p('C14','Metacalibration delivers exactly the requested images without touching its input',
 "A metacal call returns exactly one entry per requested type (defaults when none; 'noshear' and '1p' are always made as a pair), preserving the epoch/band structure, coordinate transforms and shapes of the input; each sheared image applies exactly the named shear component and sign, and the unsheared one none. The psf attached to each image is the target psf of that type, noise handling combines weights as inverse variances, results are a deterministic function of the input, the options and the generator state, and the input observations and option arguments are unchanged.",
 ['inputs','configurations','histories'],"Every subset and order of types, every psf option, noise option and input nesting, and repeated calls.",
 "Tests check a few option sets; type-set/option cross products and input preservation are not enumerated.",
 ['ngmix/metacal/metacal.py','ngmix/metacal/convenience.py','ngmix/metacal/defaults.py'],
 [('get_all/_get_all types','ngmix/metacal/metacal.py'),('fixnoise','ngmix/metacal/convenience.py'),('parameter validation','ngmix/metacal/convenience.py get_all_metacal')],
 ['returned dictionaries, input observations before/after'])
p('C15','Caching is invisible: results never depend on what was computed before',
 "Any computation that keeps cached intermediate products (metacalibration psf products, pre-psf moment kernels and transforms, psf-flux based guesses) returns the same answer as a fresh computation on the same input, whatever other computations preceded it, whether the cache is on, off, warm or evicted, and even if an earlier computation failed or its inputs were modified or discarded afterwards.",
 ['histories','fault_sequences'],"Every interleaving of computations on several inputs, option settings, cache toggles, failures and in-place edits of returned or input data.",
 "Tests time the cache or compare one warm call; key collisions, stale entries after failure and aliasing need adversarial histories.",
 ['ngmix/metacal/metacal.py','ngmix/prepsfmom.py','ngmix/ksigmamom.py','ngmix/guessers.py','ngmix/simobs.py'],
 [('galsim object cache','ngmix/metacal/metacal.py _cached_galsim_stuff, _psf_cache'),('lru caches','ngmix/prepsfmom.py'),('psf flux cache','ngmix/guessers.py TPSFFluxGuesser')],
 ['returned images, moments and guesses'])
p('C16','Expectation-maximisation honours its mode, limits and inputs',
 "An expectation-maximisation run never changes its guess or observation, performs at most the allowed iterations, reports non-convergence exactly when the limit was reached, and otherwise reports the iteration count and final mixture. Restricted modes change only what they name: fixed-centre runs keep every centre, fixed-covariance runs keep every covariance, and flux-only runs keep all but the fluxes.",
 ['inputs','configurations','histories'],"Every mode, iteration limit, tolerance, component count, coordinate transform and psf presence, on images including zero-weight pixels.",
 "Tests check recovered parameters of converging fits in each mode; frame conditions and limit behaviour are not asserted.",
 ['ngmix/em/em.py','ngmix/em/em_nb.py'],
 [('em_run variants','ngmix/em/em_nb.py'),('EMFitter.go/EMResult','ngmix/em/em.py'),('prep_obs','ngmix/em/em.py')],
 ['EM result dictionary, mixture, input objects'])
p('C17','Adaptive moments end flagged or self-consistent and leave inputs alone',
 "An adaptive-moments run leaves the observations and the guess as they were, performs at most the allowed iterations, and ends either with a failure flag and undefined summary or with a clean result whose weight function and measured moments agree (the defining fixed point) and whose flux, size, shape and errors are derived from the same sums. The answer is a function of the data alone, whatever runs came before, and rescaling the data's flux rescales the measured flux and nothing else.",
 ['inputs','configurations','histories'],"Gaussian-like, noisy and degenerate images with any weights and coordinate map, every starting weight, iteration limit, tolerance, centre-only and shift limit setting.",
 "Tests fit well-behaved gaussians; failure exits and side effects are not checked.",
 ['ngmix/admom/admom.py','ngmix/admom/admom_nb.py'],
 [('admom iteration','ngmix/admom/admom_nb.py'),('get_result','ngmix/admom/admom.py'),('AdmomFitter.go','ngmix/admom/admom.py')],
 ['result dictionary, guess mixture, observations'])
p('C18','Bounded least squares stays in bounds and reports a coherent outcome',
 "Every parameter vector at which a bounded least-squares run from a guess within or on its bounds evaluates the caller's function lies within those bounds, as does the solution it returns, for two-sided, one-sided and absent bounds alike and as long as the function returns finite values, and the bound transformation and its inverse undo each other. The outcome record of a fit has every documented entry however the run ends, a converged run's parameters exactly as found, flags that identify the failure cause (not converged, singular or non-positive covariance, non-finite values, an error raised in the search), and a covariance and error estimates in the caller's parameters exactly when it is unflagged.",
 ['inputs','configurations','fault_sequences'],"Every combination of bound kinds per parameter, start points inside and on the bounds, and residual functions that misbehave at any evaluation.",
 "Tests run a few benign fits; evaluation-time bound violations and each failure cause are not enumerated.",
 ['ngmix/fitting/leastsqbound.py'],
 [('internal/external transforms','ngmix/fitting/leastsqbound.py'),('run_leastsq','ngmix/fitting/leastsqbound.py')],
 ['arguments seen by the residual function, result dictionary'])
p('C19','Model fits assemble parameters, priors and data in one consistent layout',
 "For every model and number of bands and epochs, band i of a fit uses the shared structural parameters and the i-th flux, and the residual vector is the prior terms followed by one term per used pixel of every epoch and band in order. Each epoch is compared with the model convolved by its own psf where it has one (galsim-drawn fits compare real, then imaginary parts), the reported statistics (log-likelihood, chi-squared, degrees of freedom, signal-to-noise, pixel counts) are those of that vector at the best-fit parameters, and an unevaluable parameter vector yields a uniformly bad value rather than an error or partial result.",
 ['inputs','configurations'],"Every model, 1-3 bands, 1-3 epochs with different shapes and masks, with and without prior and psf.",
 "Tests mostly fit one band and compare recovered parameters, so misaligned layouts in multi-band, multi-epoch data with priors escape.",
 ['ngmix/fitting/results.py','ngmix/fitting/fitters.py'],
 [('get_band_pars','ngmix/fitting/results.py'),('calc_fdiff/calc_lnprob/get_fit_stats','ngmix/fitting/results.py')],
 ['FitModel methods and result dictionary'])
p('C20','Priors agree in all their forms and respect their support',
 "Every prior's log-probability is the logarithm of its probability, is highest (zero where so documented) at its mode, and its scalar, array and residual forms agree at every point. Outside the support each form reports it in the documented way (an out-of-range error or minimal probability), and every sample drawn, one or many, lies within the support with the promised shape, follows the stated density, and is a deterministic function of the generator state.",
 ['inputs','configurations'],"Every prior class over a grid of parameters and points including the support's boundary, scalar and array calls, and sample sizes.",
 "Tests spot-check a few points per prior; form-to-form agreement at boundaries is not enumerated.",
 ['ngmix/priors/priors.py','ngmix/priors/shape.py','ngmix/priors/multivariate.py','ngmix/priors/kde.py','ngmix/priors/random.py'],
 [('get_lnprob_*/get_prob_*/get_fdiff/sample','ngmix/priors')],
 ['return values and exceptions'])
p('C21','Joint priors are the sum of their parts in the fit\'s parameter order',
 "A joint prior's log-probability is the sum of its components' log-probabilities, each applied to its own parameters in the fit's order, for one or many bands or components; its residual terms are one per parameter group in that order, with squares summing to minus twice the log-probability. Bounds are listed one per parameter in the same order, and a sample has each parameter drawn from its own component.",
 ['configurations','inputs'],"Every joint prior class, 1-3 bands or components, every choice of bounded and unbounded components.",
 "Tests check that joint priors run and shapes agree, mostly for one band; misassigned components give plausible numbers.",
 ['ngmix/joint_prior.py'],
 [('fill_fdiff/get_lnprob/sample/set_bounds','ngmix/joint_prior.py')],
 ['values, bounds and samples'])
p('C22','Starting guesses have the right layout, range and prior support',
 "Every guess has the parameter count and order of the fit it is for, one row per requested guess, each entry within its documented range about the supplied size, flux or parameters (per band), and a valid shape. When a prior is supplied a guess it forbids is replaced by one drawn from it, a flux guess from psf fluxes fails when no band has a usable one, and the same generator state, inputs and prior give the same guess.",
 ['inputs','configurations','histories'],"Every guesser, 1-3 bands, 1-N guesses, sequences of calls on different observations, and priors that reject the first guess.",
 "Tests check shapes and a fit from the guess; per-band mapping and rejected guesses are not enumerated.",
 ['ngmix/guessers.py'],
 [('guesser __call__','ngmix/guessers.py'),('_fix_guess','ngmix/guessers.py')],
 ['returned guess arrays and mixtures'])
p('C23','Pre-psf moments are linear in the data and depend only on their inputs',
 "Pre-psf and plain gaussian-weighted moments are linear in the image: scaling the image scales every moment and flux, adding images adds their moments, and with psf deconvolution the psf's centring cancels and fluxes are in units of the psf's flux. They are the stated weighted sums over the image (before its psf), in the same units whether flagged or not and with or without caching, errors follow from the weight map, kernel and psf alone, unusable inputs (wrong type, missing psf, mismatched pixel scale or non-square pixels) are rejected, and inputs are not changed.",
 ['inputs','configurations'],"Every weight function, padding and smoothing option, image and psf of various sizes and offsets, zero and constant weights.",
 "Tests compare means of noisy simulations; exact linearity and option cross products are not asserted.",
 ['ngmix/prepsfmom.py','ngmix/ksigmamom.py','ngmix/gaussmom.py'],
 [('_measure_moments_fft','ngmix/prepsfmom.py'),('input checks','ngmix/prepsfmom.py PrePSFMom.go'),('GaussMom','ngmix/gaussmom.py')],
 ['result dictionaries'])
p('C24','Template flux is the exact weighted least-squares amplitude over all epochs',
 "The template (psf) flux of an observation or epoch list is the inverse-variance-weighted least-squares amplitude of the normalised template over all positive-weight pixels of all epochs, its error is the corresponding formal error with the documented chi-squared factors, and its degrees of freedom count those pixels. Pixels without positive weight have no influence whatever they hold; with no usable pixel, or when the error is not finite, the result is flagged and has no error estimate, and inputs are not changed.",
 ['inputs','configurations'],"All small images, weights with zeros, one or more epochs, mixture or image templates, any normalisation option.",
 "Tests check recovered flux within noise for a single simulated set-up.",
 ['ngmix/fitting/results.py','ngmix/fitting/fitters.py','ngmix/fitting/galsim_results.py'],
 [('PSFFluxFitModel.go','ngmix/fitting/results.py'),('TemplateFluxFitter','ngmix/fitting')],
 ['result dictionary'])
p('C25','Simulated observations add model and noise by the weight map and nothing else',
 "A simulated observation holds the requested model image plus, when asked, zero-mean noise whose variance is the inverse weight times the noise factor squared, with masked pixels given the typical (median) noise level; the simulated weights match that noise. Everything is drawn from the supplied generator alone, so equal generator states give equal results, the structure and coordinate transforms are those of the input, and the input is unchanged.",
 ['inputs','configurations'],"Every nesting level, noise option, weight map with zeros (but not only zeros, which is refused), convolution option and mixture, at every generator state.",
 "Tests check that calls run and noise statistics are roughly right in one configuration.",
 ['ngmix/simobs.py'],
 [('simulate_obs/get_noise_image','ngmix/simobs.py')],
 ['returned observation image and weight'])
p('C26','Gaussian-aperture fluxes treat each row and band independently',
 "Gaussian-aperture fluxes are computed independently for each catalogue row and band: a row's value depends only on its own parameters, equals the analytic aperture-weighted flux of its model, scales linearly with flux, and is unaffected by failures elsewhere. A masked or out-of-range row gets its defined flag and sentinel, and inputs are not changed.",
 ['inputs','configurations'],"Every model, number of bands and rows, mask pattern and position of invalid rows.",
 "Tests use homogeneous valid catalogues and one bad case.",
 ['ngmix/gaussap.py'],
 [('get_gaussap_flux','ngmix/gaussap.py')],
 ['returned flux and flag arrays'])
p('C27','N-dimensional mixtures are proper densities that survive copying and storage',
 "An n-dimensional gaussian mixture's probability is the weighted sum of its normal components, its log-probability the logarithm of that, in scalar and array calls alike; it does not alias the arrays it was built from, and saving then loading it gives the same density. Samples have the requested shape and are a deterministic function of the generator state.",
 ['inputs','histories'],"Mixtures of 1-3 dimensions and components over a grid of weights, means and covariances; build, edit, save, load and evaluate sequences.",
 "Tests fit and evaluate one two-dimensional case.",
 ['ngmix/gmix_ndim/gmix_ndim.py','ngmix/gmix_ndim/gmix_ndim_nb.py'],
 [('set_mixture/get_lnprob','ngmix/gmix_ndim')],
 ['probabilities, samples, saved files'])
p('C28','Fourier-space observations keep image, weight and psf on one grid',
 "A Fourier-space observation accepts only a weight of the image's shape and a psf of the image's shape and spacing, refuses anything else leaving its state as it was, and containers of them accept only such members. Converting real-space data keeps the band and epoch structure, draws the Fourier transform, about the centre of its Jacobian, of every image of the set and of its flux-normalised psf on one common grid (the size is the largest good image size of the epochs' psfs plus one, the spacing that of the image of that epoch), gives each a constant weight of half its largest real-space weight over the number of modes, and leaves the real-space input unchanged.",
 ['inputs','histories','configurations'],"Every combination of matching and mismatching shapes and spacings, mixed image sizes and pixel scales over epochs and bands.",
 "Tests convert one homogeneous set and test single mismatches.",
 ['ngmix/observation.py'],
 [('KObservation checks','ngmix/observation.py'),('make_iilist/make_kobs','ngmix/observation.py')],
 ['KObservation attributes and exceptions'])
p('C29','Measurements depend on the sky scene, not on how pixels are laid out',
 "Transposing or flipping the pixels of an observation together with the Jacobian of image and psf, or moving the Jacobian centre, leaves every measurement the same (positions shift with the centre, images are relabelled). Turning, mirroring or rescaling the sky coordinates transforms positions by the same map, sizes by its square, shapes by the turn (or mirror) it implies and covariances accordingly, and leaves fluxes, likelihoods and signal-to-noise as they were, up to the tolerances of each fitter; metacal images map onto those of the correspondingly turned shear. This holds for mixtures and images, weighted, adaptive and pre-psf moments, maximum-likelihood, co-elliptical, EM and galsim fits, template fluxes and Fourier-space observations.",
 ['inputs','configurations'],"Every composition of transposes, flips, quarter and 3-4-5 turns, mirrors, rescalings (small factors and units up to a million apart) and shifts of the centre, over sheared and rotated Jacobians, rectangular images, off-centre psfs, masks and models.",
 "Tests use square images, diagonal Jacobians and centred psfs, and compare with truth rather than between descriptions of the same sky.",
 ['ngmix/gmix','ngmix/pixels','ngmix/fitting','ngmix/admom','ngmix/em.py','ngmix/prepsfmom.py','ngmix/gaussmom.py','ngmix/metacal','ngmix/observation.py'],
 [('Jacobian and pixel arrays','ngmix/jacobian'),('offset of stamps from their centres','ngmix/fitting/galsim_results.py'),('kernels over Fourier modes','ngmix/prepsfmom.py')],
 ['results of the fitters and images made from them'])
p('C30','Observations read from a MEDS catalogue are those stored for each cutout',
 "Reading an object from a catalogue of cutouts gives one observation per cutout, in stored order, holding that cutout's own image, weight map of the type asked for, optional maps, Jacobian and metadata, with a psf (where the catalogue has one) centred where the catalogue says and of constant weight; cutouts whose weights all vanish are left out, and an unknown weight type is refused. The list carries the flux and size of its object where the catalogue has them, several catalogues give one list per band, and asking for some or all objects gives them in that order. Reading never mixes bands, objects or cutouts, never changes the catalogue, and what is done to an observation read shows in no later reading.",
 ['inputs','histories','configurations'],"Every catalogue shape (objects without cutouts, optional maps and columns present or not, vanishing weights per type), every weight type, one to three bands and selections with repeats.",
 "The tests of this reader need a package and a file which the environment does not have, and look at one file.",
 ['ngmix/medsreaders.py'],
 [('NGMixMEDS.get_obs/get_obslist','ngmix/medsreaders.py'),('MultiBandNGMixMEDS','ngmix/medsreaders.py')],
 ['observations and lists returned'])
p('C31','Measurements of noiseless data recover the scene they were made from',
 "Data drawn without noise from a source seen through psfs, in any bands and epochs, with any Jacobians, pixel weights and masked pixels, give that source back from any pipeline that can describe it: whichever way the psf was found, maximum-likelihood, co-elliptical, EM, pre-psf moment and galsim fits report the positions, shapes, sizes and fluxes of the source before its psf, and weighted and adaptive moments those of the source after it, under their weight. After metacalibration they report the correspondingly sheared source, seen through a round psf. Model images made from the result reproduce the data where it has weight, masked pixels have no influence, and the errors of likelihood fits without prior are those of the linear problem.",
 ['inputs','configurations'],"Every composition of metacal type and psf, way of finding the psf and measurement over random scenes, Jacobians, bands, epochs, guesses, priors and masks; tolerances are those of each fitter.",
 "Tests fit one round of mostly single-band diagonal-Jacobian scenes per fitter without masks, and never compare pipelines.",
 ['ngmix/fitting','ngmix/em','ngmix/admom','ngmix/prepsfmom.py','ngmix/gaussmom.py','ngmix/metacal','ngmix/runners.py','ngmix/guessers.py'],
 [('prep_obs','ngmix/em/em.py'),('fit models and results','ngmix/fitting'),('bootstrap and runners','ngmix/bootstrap.py')],
 ['results of the fitters and images made from them'])
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,S); assert len(x['title'])<=80,x['id']
    assert x['statement'].count('. ')<=2,(x['id'],x['statement'].count('. '))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
