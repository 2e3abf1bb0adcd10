NA = []

prop("C01", "Halo occupations are the published relations and physically valid",
     "For every occupation model, any parameter values in its domain and any array of halo masses (including masses exactly at, just below and just above a cut-off, and integer-typed masses), the mean central and satellite occupations equal the model's published relation in those parameters. Number-count central occupations lie in [0,1], satellite occupations are never negative or NaN, masses outside a model's cut-offs hold exactly nothing, and the total occupation is the sum of centrals and satellites. The per-object amounts (tracer per central/satellite), the numbers per halo derived from them and the reported minimum mass agree with the same relations, and evaluating a model changes neither its inputs nor the user's parameters.",
     ["inputs", "configurations"], "all models, all parameter values in the model's domain, all halo-mass arrays",
     "Tests evaluate a few models at default parameters on one mass grid and mostly only check shapes or bounds; exponents, cut-off sides (>= or >), marks and rarely-set parameters are never varied over their domain.",
     ["src/halomod/hod.py"], "each HOD class's _central_occupation/_satellite_occupation/_tracer_per_* and the wrappers in HOD and HODPoisson",
     "Every clause is a postcondition proved for all real masses and parameters from the current source (element-wise array semantics); Leauthaud11's inverse table is proved up to the accuracy of scipy's interpolant, which is checked at run time (bounded). IEEE rounding is not modelled.")

prop("C02", "Central condition and pair counts follow the mean occupations",
     "When the central condition is enforced, a halo's mean satellite content is the model's relation multiplied by its number of centrals (unless the model satisfies the condition by itself), so haloes that cannot host a central hold no satellites; when it is not enforced the satellite relation is returned unchanged. Satellite-satellite pairs equal the squared mean satellite content; central-satellite pairs equal the satellite content times the amount per central under the central condition and the product of the two means otherwise; models without centrals have none. The total pair function is their sum, pair counts are non-negative, and the scatter of satellites is Poisson (variance equal to the mean) and that of centrals Bernoulli.",
     ["inputs", "configurations"], "all models, central condition on and off, all parameters, all masses",
     "Tests run the central condition for one or two default models and check signs; they never compare pair functions with the occupation relation for arbitrary occupations.",
     ["src/halomod/hod.py"], "HOD.satellite_occupation, HODPoisson/HODBulk/HODNoCentral pair functions, central_condition_inherent flags",
     "Proved for arbitrary non-negative mean relations supplied by contract (so for every model and user-defined relation), per class and per central-condition setting; bounded run-time contracts evaluate the concrete models.")


prop("C03", "Halo bias models are the published fitting functions",
     "For every bias model, any parameter values and any peak heights, masses, redshift, overdensity and cosmology, the large-scale bias equals the published relation, with the published coefficients when the user sets none (Tinker10PBSplit: interpolated in the overdensity, with the published redshift evolution). The scale-dependent correction equals the published ratio of powers of the matter correlation function. Inside a halo model the bias is evaluated with that model's own peak heights, masses, non-linear mass, overdensity, spectral index, effective slope, redshift and cosmology, and models wrapped from colossus receive the peak height itself, not its square.",
     ["inputs", "configurations"], "all bias models, all parameter values, all arrays of peak heights",
     "Tests check ordering or stored numbers at one cosmology and z=0; they do not compare against the literature over the parameter space.",
     ["src/halomod/bias.py", "src/halomod/halo_model.py"], "each Bias class's bias(), ScaleDepBias.bias_scale, make_colossus_bias, DMHaloModel.bias",
     "Relation-by-relation postconditions proved for all real inputs and parameters; scipy spline interpolation and colossus values are assumed contracts. One recorded finding: the halo model never passes its redshift.")

prop("C04", "Concentration relations are the published ones, for the model's own inputs",
     "Every concentration-mass relation returns, for any masses, redshift and parameter values (including exactly zero slopes), the published relation with the published coefficients of the mass definition and halo sample in use whenever the user sets none. The relations defined implicitly (formation redshift of Bullock01, equations 6-7 of Ludlow16, the non-linear mass) return the root of the published equation, failed values of wrapped models are interpolated from the valid ones only, and colossus models receive the model's mass, redshift, definition and cosmology. In a halo model the halo and tracer relations are built with that model's own growth, filter, mass definition, profile and cosmology and evaluated at its masses and redshift; tracer models fall back to the halo ones only where unset.",
     ["inputs", "configurations"], "all relations, all parameter values, masses, redshifts and mass definitions",
     "Tests compare a couple of relations at a few masses and z=0 or check monotonicity; the space of parameters, definitions, samples and tracer/halo combinations is not sampled.",
     ["src/halomod/concentration.py", "src/halomod/halo_model.py"], "each CMRelation.cm, mass_nonlinear, zc, _eq6/_eq7; halo_concentration/tracer_concentration wiring",
     "Closed relations and the halo-model wiring are proved for all inputs; so are the implicitly defined ones (Bullock01's collapse epoch, Ludlow16's equations 6-7, the non-linear mass) over assumed contracts of scipy's minimiser and interpolants, whose accuracy is a bounded run-time contract against independent roots.")

prop("C05", "Density profiles have the published shape and hold exactly the halo mass",
     "Every density profile has the published shape, for all of its shape parameters and radii, and its enclosed-mass function is the integral of that shape. The density returned for any radius, mass and concentration, scalar or array, in any of the three coordinate conventions, is that shape scaled so that the halo's mass is inside its truncation radius (norm 'm': one; 'rho': the mean overdensity of the mass definition; default: times the mean density), and it vanishes outside that radius for truncated profiles only. The cumulative distribution is the enclosed fraction.",
     ["inputs", "configurations"], "all profiles, normalisations, coordinates, radii, masses, concentrations",
     "Tests check NFW-like profiles on a grid at one mass; normalisations, coordinates, parameters and scalar/array combinations are sampled thinly.",
     ["src/halomod/profiles.py"], "_f, _h, rho, cdf of Profile/ProfileInf and all concrete profiles",
     "Shape, h(0)=0 and h'=c^2 f, and the normalisation for an arbitrary shape are proved for all inputs; the numerical enclosed mass (GeneralizedNFW, user shapes) is proved over scipy's running integral and spline as assumed contracts.")

prop("C06", "Profile transforms and self-convolutions belong to the returned density",
     "For every profile the Fourier transform returned for any wavenumbers, masses and concentrations (scalar or array, in any order, physical or scaled wavenumber) is the transform of the density that profile returns, over the truncation volume or all space, normalised so that it tends to one on large scales (times the mass when so requested) and is never larger. Profiles offering a self-convolution return the two-centre integral of that same density. Inside a halo model the tabulated transforms, densities and self-convolutions of haloes and tracers are all normalised to unit mass and evaluated at the model's wavenumbers, separations, masses and concentrations; callers' arrays are never modified and unsupported normalisations are refused.",
     ["inputs", "configurations"], "all profiles, wavenumbers, masses, concentrations, normalisations, scalar/array shapes",
     "Tests compare a few profiles against a coarse numerical transform at one mass or only check shapes; low/high wavenumbers, unsorted inputs, coordinates and self-convolutions are hardly touched.",
     ["src/halomod/profiles.py", "src/halomod/halo_model.py"], "_p, _l, u, lam of Profile/ProfileInf and concrete profiles; halo_profile_* and tracer_profile_*",
     "Closed-form transforms are proved (dp/dc = c f(c) sin(Kc)/K and p(K,0)=0; remainder identity for the untruncated ones), as are u/lam for arbitrary p, h, l and the halo-model wiring; the closed self-convolutions and Einasto's tabulated transform are proved too; shapes transformed by quadrature are proved over quad as an assumed functional (chained from one concentration to the next), their accuracy bounded.")

prop("C07", "Halo masses, radii and scale radii are mutually consistent",
     "The radius of a halo encloses exactly the mass definition's overdensity (at the halo's redshift) times the mean density, taken at the halo's redshift or today as requested, and mass-to-radius and radius-to-mass are exact inverses. The scale radius is that radius, bloated by the requested power of peak height, divided by the concentration the relation gives at the halo's redshift (or the one supplied), so concentration times scale radius is the halo radius; physical, scaled and virial-fraction coordinates agree, and the virial velocity is sqrt(Gm/r) whether found from mass or radius. Halo and tracer profiles inside a halo model use that model's mass definition, redshift and cosmology.",
     ["inputs", "configurations"], "all profiles, mass definitions, redshifts, cosmologies, masses",
     "Tests never check the inverse relation, the at-redshift radius, bloating or non-default cosmologies.",
     ["src/halomod/profiles.py", "src/halomod/halo_model.py"], "halo_mass_to_radius, halo_radius_to_mass, _rs_from_m, scale_radius, cm_relation, _get_r_variables, virial_velocity, __init__",
     "Proved for all inputs with hmf's mass definitions as contracts; the profile inside a halo model is a bounded run-time contract. Recorded findings: Moore's concentration conversion and the Planck15 cosmology inside halo models.")

prop("C08", "Halo exclusion removes exactly the excluded pairs, above the minimum mass",
     "For every exclusion model and separation the two-halo mass integral is the bias-weighted double integral over exactly the halo pairs that do not exclude each other: none excluded (NoExclusion), masses whose radius is at most half the separation (Sphere), pairs whose radii sum to at most the separation (DblSphere), pairs weighted by the ellipsoidal non-overlap probability (DblEllipsoid), or masses up to the one whose cumulative density matches that of the ellipsoidal model (NgMatched). Both haloes are at or above the tracer minimum mass where that lies inside the grid, the modified density uses the same pairs, compiled variants give the same answers as plain ones, results do not depend on query order, inputs are left unchanged, and the halo model feeds in its own densities, bias, radii and minimum mass.",
     ["inputs", "configurations"], "all exclusion models, spectra, separations, mass grids, bias shapes and minimum masses",
     "Tests compare models loosely on one cosmology with no minimum mass and one-dimensional bias; per-pair masks, the minimum mass and scale-dependent bias are not checked.",
     ["src/halomod/halo_exclusion.py", "src/halomod/halo_model.py"], "integrate, density_mod, mask, prob, _spline_integrate of every Exclusion class; _tracer_exclusion, _matter_exclusion",
     "Proved for arbitrary grids, spectra and bias (loops over separations and wavenumbers by generic iteration) with quadrature as an assumed linear functional; compiled variants are proved from the Python source that is compiled, the triangular double rule over its windows being assumed and bounded.")

prop("C09", "Tables are interpolated inside and extended by the stated law outside",
     "An extended spline, for any table, any lower and upper extension (none, power law, boundary value, zero or user function, with or without matching) and any scalar, integer or array argument, is the interpolating spline of its table inside the domain and exactly the stated extension outside it: a power law continues that of the table's end points, positive or negative (zero, with a warning, where they change sign), a matched function is scaled to meet the table at its end, an unmatched one is used as it is, and the table's end points belong to the table. Building or evaluating it changes neither the table it was given nor the result of later calls.",
     ["inputs"], "all tables, extensions, limits and arguments",
     "Tests evaluate two or three extensions of one smooth positive table at a few floats.",
     ["src/halomod/tools.py"], "ExtendedSpline.__init__, __call__, _get_extension_func, _function_spl and the extension helpers",
     "Every branch is a postcondition proved for arbitrary tables with scipy's spline as an assumed contract (value at knots, linearity not used); bounded run-time contracts replay on real splines.")

prop("C10", "Spline integration is the integral over exactly the stated limits",
     "The integral of a tabulated function between any lower and upper limit (given or left out, zero included, inside, at the edge of or outside the table) is the integral of its interpolating spline over the part of the table within the limits, taken in logarithmic abscissa where asked, for any table; limits outside the table are reported and add nothing, an integral over everything is the sum of the integrals over its parts, and tables are left unchanged.",
     ["inputs"], "all tables, limits and both abscissa conventions",
     "Tests integrate one or two smooth functions over full tables.",
     ["src/halomod/tools.py"], "spline_integral and its callers' limits",
     "Proved from the source against scipy's spline and its integral as assumed linear functionals; additivity and accuracy on analytic functions are bounded run-time contracts.")

prop("C11", "Populated catalogues keep the books of haloes, centrals and satellites",
     "For any haloes, occupation model, profile and random generator, a populated catalogue has one position and one owner per tracer, its first tracers being the centrals: at most one per halo, at the halo's centre, present always, never or with probability nc. Satellites belong to haloes that can host them (under the central condition only to haloes with a central), number ns in the mean with Poisson scatter, lie within the virial radius of their own halo and follow its tracer profile isotropically; in a periodic box every tracer is moved into the box by whole box lengths and keeps its owner. Inputs are left unmodified, the generator's state determines the catalogue, and catalogues with one populated halo or none are valid.",
     ["inputs", "configurations", "schedules"], "all halo catalogues, occupations, profiles, boxes, random outcomes",
     "Tests populate one catalogue with a fixed seed and look at array lengths; ownership, means under either central setting, profiles and box edges are not checked.",
     ["src/halomod/tools.py", "src/halomod/profiles.py"], "tools.populate, Profile.populate",
     "Profile.populate is proved for arbitrary draws, centres and concentrations (distance is the radius enclosing a uniform mass fraction, isotropic direction); so is the catalogue's bookkeeping in tools.populate (selections of unbounded size, repetition by counts, boxes); means and distributions are bounded run-time contracts with stated counts.")

prop("C12", "Tracer densities, fractions and effective bias are occupation-weighted integrals",
     "For any occupation model, central condition and mass grid, the mean tracer density, the effective bias, the (logarithm of the) effective mass and the satellite fraction are the integrals of the mass function weighted by the mean occupation (and the bias, the mass or the satellites only) over the populated masses, starting exactly at the HOD's minimum mass where it cuts sharply; satellite and central fractions sum to one, densities convert to the HOD's own unit, and the effective bias of matter is the mass-weighted mean bias unless forced to unity. Requesting a mean tracer density, at construction or by update, yields a model with that density whose other HOD parameters are unchanged, and an unattainable density is refused.",
     ["inputs", "configurations", "histories"], "all occupation models, parameters, mass grids, requested densities",
     "Tests check one default model against loose bounds; sharp cuts between grid points, the central condition and density matching are untested.",
     ["src/halomod/halo_model.py"], "mean_tracer_den, bias_effective_tracer, mass_effective, satellite_fraction, tracer_mmin, _find_m_min, bias_effective_matter, hod",
     "Each derived quantity is proved for arbitrary occupations, spectra and grids with spline integration by contract (C10); density matching is proved over the monotone table it inverts; its accuracy in whole models is a bounded run-time contract.")

prop("C13", "Powers and correlations are the stated one- and two-halo integrals",
     "For any mass function, bias, profiles and pair counts, the one-halo powers and correlations of matter, tracers and tracer-matter pairs are the mass integrals of pairs times the matching profile transforms or convolutions over the squared mean density (with nothing from haloes smaller than the large-scale cut-off scale when that is on); the two-halo terms are the exclusion model's pair integral times the spectrum of halo centres, forced to the effective bias only for matter and only where asked. Correlations without a closed form are the Fourier transforms of their own powers at the model's separations, tables extend outside their range as stated, and totals are the sums of their one- and two-halo parts, counting one exactly where a part is given less one.",
     ["inputs", "configurations"], "all models, spectra, grids, switches",
     "Tests compare a default model against stored numbers and loose inequalities; switches, profile kinds and cross terms are sampled at one point.",
     ["src/halomod/halo_model.py"], "_do_1halo_integral, power_*/corr_* functions of DMHaloModel and TracerHaloModel, _get_power_2h_primitive, _get_*_2h_auto_fnc, power_hh",
     "Every function is proved for arbitrary inputs against the contracts of splines, integration and transforms (C09, C10, C18), the list of separation-dependent spectra for three separations; filtered spectra and power_hh included; whole models are bounded run-time contracts.")

prop("C14", "Cross-correlations count cross pairs with both tracers' own properties",
     "For any two tracers sharing a mass function, the cross pairs of centrals and satellites are the products of the two mean contents plus the correlated scatter of the chosen model (less self-pairs for satellites); the one-halo cross power is their mass integral with the profile of each satellite involved, the two-halo power the product of both tracers' bias-weighted integrals from their own minimum masses times the spectrum of halo centres, all over both mean densities. Correlations are the transforms of those powers, totals the sums of both terms, exchanging the tracers changes nothing, and updating either tracer or the pair model gives what a newly built cross-correlation gives.",
     ["inputs", "configurations", "histories"], "all pairs of tracers, pair correlations, grids, updates",
     "The only test compares two identical default tracers with a loose tolerance and never looks at the total, at different tracers or at correlated scatter.",
     ["src/halomod/cross_correlations.py"], "_HODCross/ConstantCorr pair functions; CrossCorrelations power_*/corr_* functions and cross_hod",
     "Every function is proved for arbitrary occupations, profiles and grids, with quadrature, splines and transforms by contract; concrete pairs of tracers and updates are bounded run-time contracts.")

prop("C15", "Projected and angular clustering are the stated projections of the correlation",
     "For any correlation function, grids and limits, the projected correlation at each projected separation is twice the line-of-sight integral of the model's own correlation from (just outside) that separation to the projection limit, and the angular correlation of tracers or matter is twice the integral over distance and line-of-sight separation of the correlation at sqrt(u^2 + theta^2 x^2) weighted by both selections, with distances in Mpc/h and selections given in redshift converted by dx/dz = c/H. Selections not integrating to one (within a per cent) are normalised when the check is on and taken as given otherwise, the default one is uniform over the current redshift range, and separations tabulated by the models cover every pair of the projection.",
     ["inputs", "configurations"], "all correlations, separations, angles, selections and grids",
     "Tests compare one power law against an approximate formula and one default model against stored numbers.",
     ["src/halomod/integrate_corr.py"], "projected_corr_gal, angular_corr_gal, _check_p, flat_z_dist, dxdz, ProjectedCF and AngularCF quantities",
     "Every function is proved for arbitrary inputs (the projection loop with a loop invariant) with cosmology, splines and quadrature by contract; accuracy of the quadrature against independent integrals is a bounded run-time contract.")

prop("C16", "Warm dark matter: haloes and smooth matter add up to all matter",
     "For any particle mass, redshift and mass function, the matter in haloes and the smooth matter add up to the comoving mean density, the smooth matter carries the bias that makes all matter together unbiased, and the matter power is the sum of smooth-smooth, smooth-halo and halo-halo power weighted by their shares of matter, so that it follows the spectrum of halo centres on the largest scales. Rescaled concentrations are the cold relation's times the suppression below the half-mode mass and its redshift dependence, for haloes and tracers, at the model's own half-mode mass after any update, and leave the cold relations unchanged; heavy particles reproduce the cold model.",
     ["inputs", "configurations", "histories"], "all particle masses, redshifts, mass functions, concentration relations",
     "Two tests compare concentrations below the half-mode mass; powers, densities, redshifts and tracers are never looked at.",
     ["src/halomod/wdm.py"], "HaloModelWDM, TracerHaloModelWDM, ProjectedCFWDM, CMRelationWDMRescaled",
     "Every quantity is proved for arbitrary inputs with hmf's mass function, quadrature and powers by contract, the large-scale limit as a lemma; whole models and updates are bounded run-time contracts.")

prop("C17", "Results depend on the current parameters alone, not on how a model got there",
     "After any sequence of constructions, updates (single, joint, dictionary-merging), clones and reads, every quantity of a model -- matter, tracer, projected, angular, warm-dark-matter or cross-correlation -- equals that of a freshly made model with the same parameters; reading quantities in any order, or re-reading them, changes nothing. Making, updating or cloning a model never changes the dictionaries and arrays the caller passed, nor another model made from them. (Choosing the mass function from the bias model when none is given is a convenience of construction, not of update.)",
     ["histories", "configurations", "inputs"], "all histories of updates, reads and clones over all parameters halomod defines",
     "Tests update one parameter of one model and look at one quantity; stale caches appear only for particular orders of reads and updates of particular parameter pairs.",
     ["src/halomod/halo_model.py", "src/halomod/integrate_corr.py", "src/halomod/cross_correlations.py", "src/halomod/wdm.py"], "parameter setters, cached quantities, _depends_on, _reindex_dropped_quantities, CrossCorrelations._follow_tracers",
     "Proved: setters copy, branch-dependent quantities read the same parameters on every branch (reads clauses), and -- in every other property's obligations -- no quantity modifies its inputs (frame). That the dependency's cache turns this into history independence is assumed, and tested by bounded random histories against fresh models; one defect of that cache is a known finding.")

prop("C18", "Transforms between power and correlation are the spherical Fourier integral",
     "For any spectrum and separations, the transform to a correlation is the integral of P(k) k^2 sin(kr)/(kr) over 2 pi^2, and the transform to a power the inverse, 4 pi times the integral of xi(r) r^2 sin(kr)/(kr); a different spectrum may be given per separation. The sums run over consecutive quadrature nodes from the first, each once, until a further chunk changes them by no more than the tolerance asked for or the nodes are exhausted. Tabulated spectra, the plain quadrature and the inverse transform agree with the same integrals, the exclusion window is the transform of a normalised top hat, and inputs (arrays, lists, scalars, integers) are left unmodified.",
     ["inputs", "configurations"], "all spectra, correlations, separations, node spacings and tolerances",
     "Tests compare two of the transforms with each other on one power law; no analytic pair, no inverse transform and no list of spectra is checked.",
     ["src/halomod/tools.py"], "_get_sumspace, hankel_transform, power_to_corr, power_to_corr_ogata, corr_to_power_ogata, exclusion_window",
     "Nodes, weights and the chunked summation (while loop with invariant) and the tabulated variants with their extensions are proved for all spectra, points and spacings; that Ogata's rule approximates the integral is assumed and checked on analytic pairs (bounded).")
