import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or ["return value of the public function","UserWarnings it issues","exception it raises"],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
F="deltares_coastal_structures_toolbox/functions/"
H=F+"hydraulic/"; S=F+"structural/"
p("C01","Overtopping and freeboard results follow the cited equations",
 "Every wave-overtopping function (TAW 2002, EurOtop 2007/2018, van Gent 2021 caissons, van Gent 2025, de Ridder 2024/2026, overtopping velocity) returns, for every admissible input and option combination, the value its cited reference prescribes: the discharge or freeboard of the governing equation (the smaller of breaking-wave equation and maximum where the reference defines both), using exactly the influence factors and coefficient set (design, best fit, or explicitly passed) the caller selected. The accompanying flag is true exactly when the maximum equation governs.",
 ["inputs","configurations"],"all wave, slope, berm, wind, swell and influence-factor inputs and all option/coefficient settings of every public overtopping function",
 "the tests pin a handful of points per function with default options; branch boundaries, option combinations (sigma, best fit, composite slope with berm, explicit factors, g) and interactions are never sampled",
 [H+"wave_overtopping/taw2002.py",H+"wave_overtopping/eurotop2018.py",H+"wave_overtopping/eurotop2007.py",H+"wave_overtopping/vangent2021_caisson.py",H+"wave_overtopping/vangent2025.py",H+"wave_overtopping/deridder2024.py",H+"wave_overtopping/deridder2026.py",H+"wave_overtopping/vangent2002_velocity.py"],
 [("dimensionless discharge / freeboard equations and np.min selection","calculate_dimensionless_* in each overtopping module")])
p("C02","Wave run-up and influence-factor results follow the cited equations",
 "Every run-up function (TAW 2002, EurOtop 2018, van Gent 2001) and every influence-factor helper it offers (oblique waves, berm, roughness, average slope, berm length, crest wall, wind) returns the value the cited reference prescribes for every admissible input: linear branch below the regime limit, upper branch above it, flag true exactly when the upper branch governs.",
 ["inputs","configurations"],"all wave, slope and berm inputs, single and composite slopes, all coefficient and best-fit options",
 "the tests cover a few smooth-slope points; regime crossings, berm position on either side of still water and composite-slope iteration are sampled at most once",
 [H+"wave_runup/taw2002.py",H+"wave_runup/eurotop2018.py",H+"wave_runup/vangent2001.py",H+"wave_overtopping/vangent2025.py"],
 [("run-up equations, iteration_procedure_z2p, iteration_procedure_gamma_b","wave_runup/taw2002.py, eurotop2018.py"),("regime switch at the transition breaker parameter","wave_runup/vangent2001.py")])
p("C03","Wave transmission and set-up results follow the cited equations and bounds",
 "Every transmission or set-up function (Briganti 2003, d'Angremond 1996, Goda 1967, van Gent 2023, van Gent 2024) returns the value of its cited equation for every input, selects the branch the reference prescribes (narrow/wide crest, permeable/impermeable, freeboard limits), and a transmission coefficient is always within the lower and upper limits of its reference.",
 ["inputs"],"all freeboards (emerged and submerged), crest widths, wave heights and periods",
 "tests pin isolated points per branch; limits and interpolation edges are reached only by special freeboard/width ratios",
 [H+"wave_transmission/briganti2003.py",H+"wave_transmission/dangremond1996.py",H+"wave_transmission/goda1967_caisson.py",H+"wave_transmission/vangent2023.py",H+"wave_transmission/vangent2024_setup.py"],
 [("branch selection and clamping of Kt","calculate_wave_transmission_Kt*")])
p("C04","Rock armour stability results follow the cited equations",
 "Every rock-armour function (Hudson, van der Meer 1988 and modified/2021, Etemad-Shahidi 2020, Scaravaglione 2025, Jumelet 2024, Kramer & Burcharth 2004) returns the damage, stone size, wave height or freeboard that its cited equation gives for every input, choosing plunging/surging or breaking/non-breaking coefficients by the reference's criterion and using the passed coefficients, densities and storm-duration correction.",
 ["inputs","configurations"],"all wave, slope, permeability, damage, density and duration inputs and coefficient overrides",
 "tests pin default-coefficient points, mostly plunging; regime criteria, table limits and overrides are sparsely sampled",
 [S+"stability_rock_armour/"+x for x in ("hudson1959.py","vandermeer1988.py","vandermeer1988_modified.py","vandermeer2021.py","etemadshahidi2020.py","scaravaglione2025.py","jumelet2024.py","kramerburcharth2004_lowcrested.py")],
 [("stability equations with np.where regime selection","calculate_damage_number_S / calculate_nominal_rock_diameter_Dn50 / calculate_significant_wave_height_Hs")])
p("C05","Concrete armour unit results, KD selection and correction factors are exact",
 "For every concrete unit (Accropode, Accropode II, Core-Loc, cubes single/double layer, Cubipod, Tetrapod, Xbloc, XblocPlus) unit mass/volume and wave height equal the cited stability formula, and every KD lookup, correction factor and option switch returns the tabulated value for every slope, freeboard, depth ratio and option, including exactly at class limits; unknown options raise an error instead of returning a value.",
 ["inputs","configurations"],"all wave heights, masses, slopes, densities, KD values, damage levels and table arguments",
 "tests check a few table rows; class limits and between-row arguments are not enumerated",
 [S+"stability_concrete_armour/"+x for x in ("accropode_hudson1959.py","accropode2_hudson1959.py","core_loc_hudson1959.py","cubes_double_layer_hudson1959.py","cubes_double_layer_vandermeer1988.py","cubes_single_layer_vangent2002.py","cubipod_hudson1959.py","tetrapod_hudson1959.py","xbloc.py","xblocplus.py")],
 [("KD tables, correction factor thresholds, Hudson wrapper","calculate_* of each unit module")])
p("C06","Toe, berm and rear-side stability results follow the cited equations",
 "Every toe/berm (Gerding 1993, van der Meer 1998, van Gent & van der Werf 2014, Etemad-Shahidi 2021, Takahashi 1990) and rear-side (van Gent 2007, van Gent & Pozueta 2004) function returns the damage, stone size, wave height or depth its cited equation gives for every admissible input.",
 ["inputs","configurations"],"all wave, depth, toe geometry, density and duration inputs and coefficient overrides",
 "tests pin a few points per function with default coefficients",
 [S+"stability_toe_berm/"+x for x in ("gerding1993.py","vandermeer1998.py","vangentvanderwerf2014.py","etemadshahidi2021.py","takahashi1990_caisson.py")]+[S+"stability_rock_rear/vangent2007.py",S+"stability_rock_rear/vangentpozueta2004.py"],
 [("stability equations","calculate_* of each module")])
p("C07","Goda caisson pressures, forces, safety factors and bearing pressures agree",
 "For every caisson input the pressures, uplift, total horizontal and vertical forces and moments equal Goda's formula, the safety factors follow from those same forces and the submerged weight, the bearing pressures are in equilibrium with the reaction (triangular when the reaction leaves the middle third), and the combined calculation returns the same numbers as the separate ones.",
 ["inputs"],"all wave heights, periods, angles, depths, berm and caisson dimensions, densities and friction coefficients",
 "tests compare a few worked examples; mutual consistency of the many outputs is not asserted",
 [S+"forces_caisson/goda1985.py"],[("pressure coefficients and force integration","calculate_pressures_and_forces"),("safety factors and bearing pressures","calculate_safety_factors, calculate_bearing_pressures, calculate_forces_and_reactions")])
p("C08","Crest-wall forces follow the cited equations and never act seaward",
 "Horizontal and vertical crest-wall forces (2% and 0.1%) equal the cited equations for every input, are zero when the run-up stays below the exposed edge and never negative, and a force under oblique waves is never larger than the perpendicular one for the same sea state, in agreement with the published obliqueness factors.",
 ["inputs"],"all wave, slope, crest-wall geometry, angle and coefficient inputs",
 "tests pin isolated points; clamping and obliqueness limits are not enumerated",
 [S+"forces_crestwall/vangentvanderwerf2019.py"],[("clamped force equations and obliqueness factors","calculate_FH2p_*, calculate_FV2p_*, calculate_influence_oblique_waves_*")])
p("C09","Basic wave and structure quantities are exact and mutually consistent",
 "Wave steepness, breaker parameter (and critical value), stability number, buoyant density, mass/diameter and damage-measure conversions equal their definitions for every input, conversions are each other's inverse, the stability-number helper solves for exactly the one missing quantity (and rejects zero or several missing ones), and the local wavelength satisfies the linear dispersion relation for the given period, depth and gravity.",
 ["inputs"],"all positive wave heights, periods, depths, densities and sizes, scalars and arrays",
 "tests pin single values; the dispersion relation and inverses are not asserted as relations",
 [F+"core_physics.py"],[("definitions","core_physics.calculate_*"),("dispersion solver","core_physics.calculate_local_wavelength")])
p("C10","Discharge and crest freeboard are exact inverses of each other",
 "For every overtopping method offering both directions, feeding the freeboard returned for an allowable discharge back into the discharge function with the same settings returns that discharge, and vice versa, for every combination of slope type, berm, influence factors, gravity, coefficients and design/best-fit choice, and both directions agree on whether the maximum equation governs.",
 ["inputs","configurations"],"all discharges, freeboards, wave conditions and shared options of TAW 2002, EurOtop 2007/2018, van Gent 2021, van Gent 2025, de Ridder 2024/2026",
 "tests check each direction against fixed numbers or one round trip with default options; an option forwarded in one direction only goes unnoticed",
 [H+"wave_overtopping/"+x for x in ("taw2002.py","eurotop2018.py","eurotop2007.py","vangent2021_caisson.py","vangent2025.py","deridder2024.py","deridder2026.py")],
 [("forward and inverse equation pairs","calculate_overtopping_discharge_q* / calculate_crest_freeboard_*")])
p("C11","Rock armour damage, stone size and wave height are mutual inverses",
 "For every rock-armour method offering several directions, the stone size returned for a target damage gives that damage again, the wave height returned for a stone size and damage gives that damage again, and mass/size and wave-height designs recover each other, in every regime and with every density, coefficient and correction setting the two directions share.",
 ["inputs","configurations"],"all inputs for which the cited equations have a regime-consistent solution",
 "tests check each direction separately at default settings",
 [S+"stability_rock_armour/"+x for x in ("hudson1959.py","vandermeer1988.py","vandermeer1988_modified.py","vandermeer2021.py","etemadshahidi2020.py","scaravaglione2025.py","jumelet2024.py","kramerburcharth2004_lowcrested.py")],
 [("forward and inverse equation pairs, regime iteration","calculate_damage_number_S / _Dn50 / _Hs / _M50")])
p("C12","Toe, rear-side and concrete-unit design directions are mutual inverses",
 "For every toe, berm, rear-side, concrete-armour and run-up-inversion method offering several directions, designing the unit size (or depth) for a load and then asking for the load or damage that this size sustains returns the original value, for every option and coefficient setting both directions share (within the rounding of the published coefficients where the reference itself rounds them).",
 ["inputs","configurations"],"all loads, damages, sizes, slopes, densities and shared coefficients",
 "tests check each direction separately at default settings",
 [S+"stability_toe_berm/gerding1993.py",S+"stability_toe_berm/vandermeer1998.py",S+"stability_toe_berm/etemadshahidi2021.py",S+"stability_toe_berm/vangentvanderwerf2014.py",S+"stability_toe_berm/takahashi1990_caisson.py",S+"stability_rock_rear/vangent2007.py",S+"stability_rock_rear/vangentpozueta2004.py",S+"stability_concrete_armour/xbloc.py",S+"stability_concrete_armour/xblocplus.py",S+"stability_concrete_armour/cubes_double_layer_vandermeer1988.py",S+"stability_concrete_armour/accropode_hudson1959.py"],
 [("forward and inverse equation pairs","calculate_* of each module")])
p("C13","Out-of-range inputs are always reported by a warning that names the variable",
 "Whenever a validity check, or a calculation that performs one, receives a value outside the published range of its method, a warning is issued that names that variable, its value, the range and the method, for every such variable independently of which other inputs are supplied; the result is still returned.",
 ["inputs","configurations"],"every checked variable of every method, just outside either limit and far outside, alone or with other inputs, scalar or array",
 "no test asserts a warning; a dropped, mis-gated or mis-limited check is invisible to the suite",
 [F+"core_utility.py",F+"hydraulic",F+"structural"],[("range check with warning","core_utility.check_variable_validity_range"),("per-method checks","check_validity_range / check_validity of each module")])
p("C14","In-range inputs never raise a validity warning and reported facts are true",
 "Inputs within (or exactly on) the published range of a method never cause a validity warning, and every warning that is issued states the true value of the named variable and the true limits of the method; the validity result list marks exactly the offending elements.",
 ["inputs","configurations"],"every checked variable of every method, inside and exactly on both limits, scalar or array",
 "no test asserts the absence of warnings or their content",
 [F+"core_utility.py",F+"hydraulic",F+"structural"],[("range check with warning","core_utility.check_variable_validity_range"),("per-method checks","check_validity_range / check_validity of each module")])
p("C15","Array inputs give element by element what scalar inputs give",
 "When a function accepts arrays, each element of its result (values, flags and validity warnings) equals the result of the scalar call with the corresponding inputs, whatever mixture of scalars and arrays is passed, whatever the order and length of the elements and whichever regimes they fall in; a mixture of arrays a function cannot handle raises an error rather than returning wrong elements, and documented array inputs of the plain (non-composite) calculations are accepted.",
 ["inputs","configurations"],"all functions, all subsets of array-valued arguments, array lengths one and more, elements in mixed regimes",
 "only two test modules pass arrays at all",
 [F+"core_physics.py",F+"hydraulic",F+"structural"],[("np.where / np.min(axis=0) vectorised branches","all calculation functions")])
p("C16","Calculations are pure: no history dependence and inputs are never modified",
 "The result, warnings and errors of a call depend only on its arguments: repeating a call, interleaving it with any other calls, or passing keyword arguments in another order or as positional arguments gives the identical outcome, and arrays passed in are never modified nor (except by the helpers whose purpose is to hand back one of their inputs) aliased by results.",
 ["histories","inputs"],"all finite sequences of calls over all public functions",
 "tests call each function once with fresh literals",
 [F+"core_physics.py",F+"hydraulic",F+"structural"],[("stateless functions, no in-place array updates","all calculation functions")])
p("C17","Equivalent ways of giving an input agree, and missing inputs are rejected",
 "Where an input can be given in alternative forms (angle or influence factor, stone size or mass, spectral or significant wave height, single or equal composite slope, mass or volume, damage number or damage class), equivalent inputs give the same result and an explicitly supplied factor is used as given; when none of the alternatives is supplied the function raises a ValueError instead of returning a number or NaN.",
 ["inputs","configurations"],"all functions with alternative inputs, every alternative, every absent combination",
 "tests exercise one alternative per function and few missing-input errors",
 [H+"wave_runup/taw2002.py",H+"wave_runup/eurotop2018.py",H+"wave_overtopping",F+"core_physics.py",S+"stability_rock_armour"],
 [("check_calculate_gamma_beta, check_composite_slope","wave_runup/taw2002.py"),("check_usage_Dn50_or_M50","core_physics.py")])
p("C18","Influence factors stay within their bounds and treat wave angles symmetrically",
 "Every influence or correction factor (oblique waves, berm, roughness, crest wall, crest-wall force obliqueness, wind, permeability, damage class, unit size) and every transmission coefficient stays within the bounds of its reference for every input, is neutral for the neutral condition (normal incidence, no berm, smooth slope, no wall, no wind, no correction), does not depend on the sign of the wave angle, and does not change beyond the limiting angle.",
 ["inputs"],"all angles (negative, beyond the limit), berm widths and levels, roughness and breaker parameters",
 "tests check a few positive angles and berm positions",
 [H+"wave_runup/taw2002.py",H+"wave_runup/eurotop2018.py",H+"wave_overtopping/vangent2025.py",H+"wave_overtopping/vangent2021_caisson.py",H+"wave_overtopping/deridder2026.py",S+"forces_crestwall/vangentvanderwerf2019.py"],
 [("clamped factor equations","calculate_influence_*")])
p("C19","Results move in the safe direction when the design changes",
 "Within the range of an equation, raising the crest never increases overtopping, overtopping velocities, crest-wall forces, transmission or the required rear-side stone; allowing more discharge or damage never requires a higher crest or larger stone; higher waves (alone or at the same steepness) never reduce run-up, overtopping of a fixed crest, loads, damage or required unit size; rougher, gentler or more obliquely attacked plain slopes never get more run-up or overtopping, wider crests never transmit more; heavier, denser or more numerous units never sustain less and never give lower safety factors; mean-value (best-fit) estimates never exceed the design values.",
 ["inputs","histories"],"all single-parameter increases from any starting design, within one method",
 "a monotone relation quantifies over all pairs of inputs; tests never compare two results",
 [H+"wave_overtopping",H+"wave_runup",H+"wave_transmission",S+"stability_rock_armour",S+"stability_toe_berm",S+"stability_concrete_armour",S+"forces_caisson/goda1985.py",S+"forces_crestwall/vangentvanderwerf2019.py"],
 [("signs of exponents and coefficients in every equation","calculation functions")])
p("C20","Dimensional and dimensionless results agree and Froude scaling holds",
 "Each dimensional result equals the matching dimensionless result times its scale for every input and gravity value; scaling all lengths by k and times by sqrt(k) scales lengths, velocities, discharges, masses and forces by the Froude factors and leaves dimensionless results, regime flags and the dimensionless validity limits that are exceeded unchanged; scaling all densities scales masses and forces by the same factor and leaves sizes, wave heights and damage unchanged (where no density is fixed by the reference).",
 ["inputs"],"all inputs, all scale factors, all gravity values",
 "tests do not relate different calls",
 [H+"wave_overtopping",H+"wave_runup",S+"stability_rock_armour",S+"stability_toe_berm",S+"forces_crestwall/vangentvanderwerf2019.py",F+"core_physics.py"],
 [("dimensional wrappers","calculate_overtopping_discharge_q, calculate_crest_freeboard_Rc, calculate_wave_runup_height_z2p")])
p("C21","Iterative solutions terminate and satisfy their governing equation",
 "Every result obtained by iteration or search (composite-slope run-up and berm factor, low-crested freeboard, toe wave height, regime-dependent stone sizes, implicit run-up and velocity inversions, Takahashi searches, wavelength) is returned in finite time and, wherever the published iteration converges, satisfies the governing equation of its method within the tolerance given, for every tolerance and from every admissible starting value (two starting values, or two tolerances, give the same answer within the tolerance); a composite slope gives the result of the average slope found for it.",
 ["inputs"],"all admissible inputs, including those needing many iterations",
 "tests sample converging textbook cases only",
 [H+"wave_runup/taw2002.py",H+"wave_runup/eurotop2018.py",H+"wave_overtopping/vangent2025.py",S+"stability_rock_armour/kramerburcharth2004_lowcrested.py",S+"stability_rock_armour/etemadshahidi2020.py",S+"stability_toe_berm/etemadshahidi2021.py",S+"stability_toe_berm/takahashi1990_caisson.py",F+"core_physics.py"],
 [("iteration loops with tolerance and iteration limit","iteration_procedure_*, calculate_* of the named modules")])
p("C22","Default coefficients equal the published ones and explicit options are honoured",
 "Passing a coefficient, gravity, density or option explicitly at its published default gives the default result (to rounding) and the same warnings; passing any other value has the effect the equation prescribes in every function offering it (never silently ignored); and the best-fit option is the same as passing the best-fit coefficients explicitly.",
 ["configurations","inputs"],"every optional parameter of every function, default and non-default values, alone and in combination",
 "tests rarely pass optional coefficients, so an ignored or wrongly forwarded one is invisible",
 [F+"hydraulic",F+"structural"],[("keyword forwarding between dimensional and dimensionless functions","all calculation functions")])
p("C23","Input files for external overtopping models contain exactly the given data",
 "The files written for the neural-network and XGB overtopping tools contain one row per case in the given order with every supplied parameter in the column the tool expects, unchanged, for every number of cases and every admissible value, a second request replaces the file of the same name and leaves the others alone, and an inconsistent or incomplete request is rejected without any row being written.",
 ["inputs"],"all numbers of rows, values, column orders and optional columns",
 "tests write one example file",
 [H+"wave_overtopping/denbieman2021.py",H+"wave_overtopping/vangent2007.py"],
 [("file writers","write_input_file_XGB_Overtopping, write_input_file_NN_Overtopping")])
p("C24","The user is told when an input is replaced, ignored or an iteration is cut short",
 "Whenever a stone size is derived from a mass without a density, when a number of standard deviations is given that the design coefficients cannot use, or when the rear-side wave height iteration stops at its limit before it has converged, a warning says so; no such warning is given when the density is known (or the size is given), when the standard deviations are used or zero, or when the iteration converges well within its limit - for every function that offers these inputs, whatever the other inputs are.",
 ["inputs","configurations"],"all inputs and combinations of given and omitted inputs, all iteration limits and tolerances",
 "tests look at returned values; a lost or spurious notice is invisible to them",
 [F+"core_physics.py",H+"wave_overtopping/taw2002.py",S+"stability_rock_rear/vangent2007.py",S+"stability_rock_rear/vangentpozueta2004.py"],
 [("notices","check_usage_Dn50_or_M50, calculate_dimensionless_overtopping_discharge_q, calculate_dimensionless_crest_freeboard, calculate_maximum_significant_wave_height_Hs")])
with open("properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
