#!/usr/bin/env python3
"""Source of properties.jsonl (python3 tools/properties.py writes it)."""
import json
from pathlib import Path

S = "src/pystrata/"
P = []


def p(id, title, statement, over, text, why, files, mech, obs=(), state=()):
    P.append({
        "id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": [S + f for f in files],
                    "state": [{"name": a, "meaning": b, "where": S + c} for a, b, c in state],
                    "mechanism": [{"name": a, "where": S + b} for a, b in mech],
                    "observe_at": list(obs), "hook_needed": None}})


p("C01", "Profile depths and stresses agree with its layers after any edits",
  "After building a profile (from layers or a table) and after any sequence of appending or inserting layers, changing a layer's thickness or changing the water-table depth, every layer's top, middle and base depth and its total vertical stress are those of the column above it, also when several layers have identical properties; the table of the profile and its soil types (each once, in order) are those of its layers. Pore pressure is gravity times the depth below the water table (zero above it), effective stress is total stress minus pore pressure at that depth, and mean stress is (1 + 2 k0)/3 of the vertical stress.",
  ["histories", "inputs"], "all sequences of public edits of a profile, all thicknesses, unit weights, water tables and positions within a layer",
  "Tests build one or two fixed profiles and read a few depths; they never edit a profile repeatedly or repeat a layer.",
  ["site.py"], [("Profile.update_layers re-derives depth and stress from the edited layer downwards", "site.py"), ("Layer.stress_vert / stress_mean / Profile.pore_pressure", "site.py"), ("Layer.thickness setter", "site.py")],
  ["Layer.depth/depth_mid/depth_base", "Layer.stress_vert", "Layer.stress_mean", "Profile.depth", "Profile.pore_pressure"],
  [("_depth, _stress_vert", "derived top depth and total stress of each layer", "site.py")])

p("C02", "A depth or index names exactly one place in the profile",
  "Looking up a depth returns the one layer whose top is at or above it and whose base is below it, together with the distance from that layer's top, and depths at or below the top of the half-space return the half-space. A location given by index (also negative) refers to exactly that layer at its top and carries the layer's own position counted from the surface, even when another layer has identical properties. A location keeps the wave field it was asked for and its vertical stress is the stress at that depth. A place named by a depth and an index at once, by neither, or by an index beyond the layers is refused.",
  ["inputs", "histories"], "all profiles (with repeated layers, thin layers, edited thicknesses), all depths including exact interfaces, all indices",
  "Tests look up a handful of depths in one profile of distinct layers.",
  ["site.py"], [("Profile.lookup_depth", "site.py"), ("Profile.location / Profile.index", "site.py"), ("OutputLocation", "output.py")],
  ["Profile.lookup_depth", "Profile.location", "Location.index/layer/depth_within"])

p("C03", "Copying and discretising keep the column and leave the source alone",
  "A copied or automatically discretised profile has the same total depth, water table, soil types, initial shear-wave velocities, minimum damping and half-space as its source, whatever was calculated with the source before. Automatic discretisation splits each layer it applies to into equal sublayers no thicker than the requested fraction of the shortest wavelength (and no more of them than needed), and keeps linear layers whole when only nonlinear layers are asked for. The new profile shares no mutable layer with the source: editing or calculating with either never changes the other.",
  ["inputs", "histories"], "all profiles, discretisation parameters and preceding calculations, followed by edits of either profile",
  "Tests compare a copy once, right after construction, and discretise a single profile without using the source again.",
  ["site.py"], [("Layer.copy / Profile.copy", "site.py"), ("Profile.auto_discretize", "site.py")],
  ["Profile.copy", "Profile.auto_discretize", "all Layer attributes of source and result"])

p("C04", "Nonlinear curves interpolate log-linearly within their limits",
  "A modulus-reduction or damping curve evaluated at any strain returns the log-strain linear interpolation of its tabulated values, the first or last tabulated value outside the tabulated strains, always clipped to the curve's limits, element by element for arrays. Replacing the strains or the values of a curve changes all later evaluations accordingly. Curves loaded by published name carry exactly the published table of that name for modulus reduction and for damping.",
  ["inputs", "histories"], "all strain/value tables, limits, strains (scalar and array) and sequences of replacements; every published model name",
  "Tests evaluate few strains on few curves; nothing covers replaced tables or all published names.",
  ["site.py", "data/published_curves.toml"], [("NonlinearCurve.__call__ / _update", "site.py"), ("NonlinearCurve.from_published, SoilType.from_published", "site.py")],
  ["NonlinearCurve.__call__", "NonlinearCurve.strains/values setters"])

p("C05", "A layer's dynamic properties are those of its latest strain",
  "After a strain is assigned to a layer, its shear modulus is the initial modulus (density times initial velocity squared) times the modulus reduction at that strain, its damping is the soil type's damping at that strain with the soil type's minimum damping replaced by the layer's own, and its velocity, modulus reduction and shear stresses follow from these; a copied soil type has the same density, curves and quality (1/(2 damping)) and shares nothing with the original. Resetting the layer, or changing its initial velocity or minimum damping, restores the small-strain properties. The reported error is the largest relative change in percent, up or down, of modulus or damping since the previous assignment.",
  ["histories", "inputs"], "all sequences of strain assignments (scalar or one per frequency), resets and changes of initial velocity or damping, over linear and nonlinear soil types",
  "Tests assign one strain to one layer; sequences, decreasing strains and resets after iteration are not covered.",
  ["site.py"], [("Layer.strain setter, Layer.reset, Layer._compute_damping", "site.py"), ("IterativeValue.relative_error", "site.py")],
  ["Layer.shear_mod/damping/shear_vel/strain/max_error/stress_shear_eff"],
  [("_shear_mod, _damping, _strain", "current and previous iterated values", "site.py")])

p("C06", "Computed waves satisfy the layered wave equation",
  "For every linear-elastic (or converged strain-compatible) calculation the up- and down-going waves in each layer give zero shear stress at the ground surface and continuous displacement and shear stress across every interface, at every frequency of the motion. Complex modulus and velocity follow the damping model (real part reduced so that the modulus keeps its magnitude, imaginary part twice the damping, damping limited to 0.49). Splitting a layer into identical sublayers changes no response.",
  ["inputs", "configurations"], "all profiles (any number of layers, thicknesses, contrasts, damping 0 to 0.5), frequencies including zero",
  "Tests compare two fixed profiles against stored results at a loose tolerance.",
  ["propagation.py", "site.py"], [("_calc_waves_numba / _calc_waves_python", "propagation.py"), ("Layer.comp_shear_mod / comp_shear_vel", "site.py")],
  ["LinearElasticCalculator.wave_at_location at several depths", "calc_strain_tf"])

p("C07", "Transfer functions relate wave fields at any two locations",
  "The acceleration transfer function between two locations is the ratio of the wave fields there, where outcrop motion is twice the up-going wave, within motion the sum of both waves and incoming the up-going wave alone; transfer functions therefore compose, invert, and are one from a location to itself. At the surface outcrop and within motions agree, a uniform column over an identical half-space does not alter its outcrop motion apart from damping and delay, and at zero frequency between like wave fields the transfer function is one. Results do not depend on whether the optional accelerated (numba) implementation is available.",
  ["inputs", "configurations"], "all profiles, pairs and triples of locations and wave fields, with and without the optional accelerator",
  "Tests evaluate one transfer function per profile and only in the installed configuration.",
  ["propagation.py"], [("LinearElasticCalculator.calc_accel_tf / wave_at_location", "propagation.py"), ("HAS_NUMBA dispatch", "propagation.py")],
  ["calc_accel_tf", "wave_at_location"])

p("C08", "Strain and stress transfer functions follow from the displacement field",
  "The strain transfer function at a location is the depth derivative of the displacement there per unit input acceleration in g, is zero at zero frequency and vanishes at the ground surface. The stress transfer function is the strain transfer function times the layer's complex modulus, or times its real modulus when undamped stress is asked for. Asking for one never changes the result of a later request.",
  ["inputs", "histories"], "all profiles, frequencies, input wave fields and depths of evaluation, and orders of requests",
  "Tests only use strains inside one equivalent-linear comparison.",
  ["propagation.py"], [("LinearElasticCalculator.calc_strain_tf / calc_stress_tf", "propagation.py")],
  ["calc_strain_tf", "calc_stress_tf"])

p("C09", "Equivalent-linear iteration stops exactly when it should",
  "The equivalent-linear calculation starts from strains of peak ground velocity over initial velocity, then repeatedly assigns each layer above the half-space the strain ratio times the peak strain at its middle, computed with the properties of the previous iteration, capped at the strain limit. It stops as soon as no layer's modulus or damping changes by the tolerance or more, after the maximum number of iterations otherwise, and raises an error if and only if the cap was applied in two successive iterations without convergence. On return every layer's properties are those of its assigned strain and its maximum strain is the peak strain of the final waves.",
  ["histories", "configurations", "inputs"], "all profiles, motions, strain ratios, tolerances, iteration limits and strain limits, hence all strain histories",
  "Tests run one converging calculation; stopping early, stopping late, increasing moduli and strain-limit faults are not exercised.",
  ["propagation.py", "site.py"], [("EquivalentLinearCalculator.__call__", "propagation.py"), ("IterativeValue.relative_error", "site.py")],
  ["sequence of peak-strain requests to the motion", "Layer.strain/shear_mod/damping/strain_max", "RuntimeError"])

p("C10", "Frequency-dependent strains follow the selected spectrum shape",
  "The frequency-dependent equivalent-linear calculation assigns each layer one strain per motion frequency that never exceeds the effective strain (strain ratio times peak strain) nor the strain limit. The shape is the layer's strain Fourier spectrum over its maximum for the unsmoothed method, the running maximum from high to low frequency of its Konno-Ohmachi smoothing over the maximum for the smoothing method, and the exponential-power decay in frequency over mean frequency, fitted above the mean frequency and limited to one, for the Kausel-Assimaki method. Modulus and damping of a layer are evaluated frequency by frequency from these strains.",
  ["inputs", "configurations"], "all profiles, motions, methods and bandwidths",
  "Tests compare one stored case per method at a loose tolerance.",
  ["propagation.py"], [("FrequencyDependentEqlCalculator._calc_strain", "propagation.py")],
  ["Layer.strain/shear_mod/damping after the calculation"])

p("C11", "A calculation's results depend only on its inputs",
  "Running a calculation with layer reset gives the same response, strains and properties as a fresh calculator on a fresh, equal profile, whatever calculators, motions, profiles and input locations were used before with the same objects, in any order. Without layer reset a linear-elastic calculation uses the layers' current strain-compatible properties. A calculation changes neither the motion, nor the profile's geometry and initial properties, nor the soil types.",
  ["histories"], "all sequences of calculations over shared calculators, profiles and motions, including motions with different frequencies",
  "Each test runs each calculator once on a fresh profile.",
  ["propagation.py", "site.py"], [("AbstractCalculator.__call__ resets the layers", "propagation.py"), ("Layer.reset", "site.py"), ("cached smoother in FrequencyDependentEqlCalculator", "propagation.py")],
  ["transfer functions, strains, moduli, damping after each calculation"])

p("C12", "Outputs keep one aligned column per result, unchanged afterwards",
  "After any sequence of results of differing lengths, an output holds exactly one name, one value column and (unless its references are fixed) one reference column per result, in order, shorter columns being padded with NaN, and results recorded earlier keep their values. Names default to r1, r2, ... by position, resetting forgets all results but keeps fixed references, and iterating yields each result's name, references and values. A collection passes each result to each of its outputs.",
  ["histories", "inputs"], "all sequences of recorded results (different profiles, lengths and motions), given and default names, and resets",
  "Tests append at most two arrays to the helper and never record mixed-length results through an output.",
  ["output.py"], [("Output._add_values / _add_refs / append_arrays", "output.py"), ("OutputCollection.__call__", "output.py")],
  ["Output.names/refs/values/iter_results"],
  [("_names, _refs, _values", "recorded results", "output.py")])

p("C13", "Each output records the quantity it is named for",
  "Time-series outputs hold the motion passed through the transfer function to their location (acceleration, strain, optionally percent, stress, optionally normalised by effective vertical stress, cumulative Arias intensity); spectral and Fourier outputs the response spectrum or Fourier amplitude there, ratio outputs output over input (the transfer function in magnitude, or complex when asked for). Profile outputs hold at the layer tops or middles the maximum strain, damping, modulus reduction, initial and compatible velocity, peak acceleration and cyclic stress ratio (0.65 of peak stress over effective vertical stress) of the layers above the half-space.",
  ["inputs", "configurations"], "all profiles, motions, output locations, frequencies and output options",
  "Tests check that outputs run or compare one stored spectrum.",
  ["output.py"], [("subclasses of LocationBasedOutput, RatioBasedOutput, ProfileBasedOutput", "output.py")],
  ["Output.refs/values against the calculator's own transfer functions and layers"])

p("C14", "Output statistics and tables summarise exactly the recorded results",
  "The statistics of an output are, at each reference, the exponential of the mean and the standard deviation of the logarithm of the recorded values, ignoring missing ones. Tables hold each named result's values at the references; for profile outputs both use each result's value of the layer reaching to that depth. Both work for one result as for many.",
  ["inputs", "histories"], "all collections of recorded results, one or more, equal or differing lengths, any reference depths",
  "Tests call the statistics on one fixed set of results and never with one result.",
  ["output.py"], [("Output.calc_stats / to_dataframe", "output.py"), ("ProfileBasedOutput._ln_interp", "output.py")],
  ["calc_stats", "to_dataframe"])

p("C15", "A logic tree enumerates exactly its valid branches, once, with product weights",
  "Iterating a logic tree yields every combination of one alternative per node whose requirements all hold and whose exclusions do not all hold, no other, each distinct combination of values once, in node order with later nodes varying fastest. Alternatives of zero weight never occur; a branch's weight is the product of its alternatives' weights, and its values and parameters are those of the alternatives chosen. A tree read from a list or a (compressed) JSON file is the tree it describes; looking an alternative up by value finds it, random choices are valid branches, and an array built over the tree holds for each combination the value of that branch.",
  ["inputs", "configurations"], "all trees: nodes, alternatives, weights, requirement and exclusion tables (single values, floats, lists of values)",
  "Tests enumerate three hand-written trees.",
  ["logic_tree.py"], [("LogicTree.__iter__ / is_valid", "logic_tree.py"), ("Alternative.is_valid / Realization.is_valid", "logic_tree.py"), ("LogicTree.from_list / from_json", "logic_tree.py")],
  ["iteration of LogicTree", "Branch.weight/as_dict"])

p("C16", "Simulated profiles keep the seed's structure and leave it alone",
  "Simulating profiles yields exactly the requested number, each with the seed's water table and a half-space of the seed's soil type, damping and (unless bedrock is varied) velocity. Varied layering keeps the seed's total depth with positive thicknesses, each new layer taking soil type, velocity and damping of the seed layer at its middle; varied half-space depth puts the half-space at the sampled depth and keeps the layers above; varied velocities or soil types keep thicknesses. The seed profile, its layers and soil types are unchanged and shared with no simulated profile's layers.",
  ["inputs", "histories"], "all seed profiles, variation models, random streams and counts",
  "Tests draw a few profiles and check their count or a velocity; the known base failure shows this area is untested.",
  ["variation.py"], [("iter_varied_profiles", "variation.py"), ("ToroThicknessVariation, HalfSpaceDepthVariation, VelocityVariation, SoilTypeVariation.vary_profile", "variation.py")],
  ["yielded profiles", "seed profile after iteration"])

p("C17", "Simulated values respect their bounds, model and percentiles",
  "Every simulated velocity lies within the truncation limit times the scaled logarithmic standard deviation of the seed velocity, with the model's standard deviation by depth or soil-type name and the Toro correlation between neighbouring layers. Varied modulus reduction and damping lie within the configured limits at the seed's strains, and are the mean curves shifted by the model's standard deviations by one pair of truncated variates with the requested correlation per soil type. Simulated layer boundaries follow the Toro rate, and the random variates are truncated at their limit with unit standard deviation. With fixed percentiles the i-th profile uses percentile i modulo their number, the same percentile always gives the same curves, and counts that are no multiple of their number are refused. Generic Toro models have the published parameters of their site class, and a Vs30 has the class of its range.",
  ["inputs", "configurations"], "all seed profiles and soil types, standard deviations, correlations, limits, percentiles and random streams",
  "Tests check stored values of single draws and a few percentile cases.",
  ["variation.py"], [("VelocityVariation.__call__, ToroVelocityVariation._calc_corr", "variation.py"), ("SoilTypeVariation.__call__, DarendeliVariation, SpidVariation", "variation.py"), ("TruncatedNorm", "variation.py")],
  ["varied profiles and soil types"])

p("C18", "Time and frequency descriptions of a motion agree",
  "A time-series motion's Fourier amplitudes are the discrete transform of its accelerations scaled by the time step, at frequencies that are multiples of one over the padded duration, for any length and any requested transform length. Applying no transfer function returns the (zero-padded) record, applying a transfer function multiplies the spectrum, and peak acceleration, peak velocity, Arias intensity and cumulative absolute velocity are those of the resulting series. All are homogeneous in the record (degree one, Arias two), and reading any of them changes none of the others.",
  ["inputs", "histories"], "all records, lengths (even, odd, power of two or not), time steps and transfer functions, and orders of reading",
  "Tests use one record of one length.",
  ["motion.py"], [("TimeSeriesMotion._calc_fourier_spectrum / calc_time_series", "motion.py"), ("calc_peak, calc_pgv, calc_arias_intensity, calc_cav", "motion.py")],
  ["freqs, fourier_amps, calc_time_series, pga, pgv, arias_intensity, cav"])

p("C19", "Oscillator response is that of a damped single-degree-of-freedom system",
  "The pseudo-acceleration spectrum of a motion at each oscillator frequency is the peak of the motion filtered by f0^2/(f0^2 - f^2 + 2 i d f0 f), for the requested damping, after any transfer function. It tends to the peak acceleration for very stiff oscillators and scales with the motion, and the order or grouping of oscillator frequencies does not matter.",
  ["inputs"], "all records, oscillator frequencies, dampings and transfer functions",
  "Tests compare one spectrum with stored values.",
  ["motion.py"], [("TimeSeriesMotion.calc_osc_accels / _calc_sdof_tf", "motion.py")],
  ["calc_osc_accels"])

p("C20", "Record and model files are read back as written",
  "Reading an AT2 or SMC record yields the description, time step and every acceleration of the file, in order and times the scale factor, for any count of values and any layout of the lines; SMC files that hold no corrected accelerogram are refused. Reading an nrattle control file yields its layers and half-space, and the profile made from it has thickness and velocity in metres, unit weight from density and damping from inverse quality.",
  ["inputs"], "all well-formed files: number of values, values per line, partial last lines, comments and scale factors",
  "Tests read one file of each kind.",
  ["motion.py", "tools.py"], [("TimeSeriesMotion.load_at2_file / load_smc_file", "motion.py"), ("parse_fixed_width, read_nrattle_ctl, profile_from_nrattle_ctl", "tools.py")],
  ["loaded motions and profiles"])

p("C21", "Every kind of motion provides what the calculators need",
  "Random-vibration motions (from a Fourier spectrum, compatible with a response spectrum, or from source theory) provide frequencies, Fourier amplitudes, peak ground acceleration and velocity, oscillator response and peaks through a transfer function, so every calculator and output not tied to time series runs with them. Peak acceleration is the peak without transfer function, peak velocity the peak through one over i omega times g in cm/s, and all scale with the motion.",
  ["inputs", "configurations"], "all kinds of motion, calculators and parameters",
  "Tests use random-vibration motions only for oscillator response; equivalent-linear examples with them fail at base.",
  ["motion.py"], [("RvtMotion, CompatibleRvtMotion, SourceTheoryRvtMotion, Motion.pga/pgv", "motion.py")],
  ["pga, pgv, calc_peak, calc_osc_accels, EquivalentLinearCalculator with RVT motions"])

p("C22", "Quarter-wavelength amplification is the impedance ratio at the averaging depth",
  "For each frequency the quarter-wavelength calculation averages slowness and density from the surface to the depth whose average velocity over four times that depth is the frequency (found to within two percent of travel time), and its amplification is the square root (or the configured exponent model) of the half-space impedance over the averaged impedance. The site term multiplies this by exp(-pi kappa f) when site attenuation is given. A uniform profile gives exactly one, whatever was calculated with the profile before. Fitting keeps the number of layers, soil types, densities, damping and water table, and the thicknesses, half-space velocity and site attenuation unless asked to adjust them; it leaves the given profile alone, stays within its bounds, never ends farther from the target, and leaves the amplification of the fitted profile.",
  ["inputs", "configurations"], "all profiles, frequencies, attenuation values and methods",
  "Tests compare one stored profile.",
  ["propagation.py"], [("QuarterWaveLenCalculator._calc_amp / my_trapz / fit", "propagation.py")],
  ["crustal_amp, site_term, profile"])

p("C23", "Damping adjustment hits its target and touches only what it may",
  "Adjusting minimum damping yields a profile whose site attenuation plus the scattering attenuation equals the target, with damping inversely proportional to velocity in the adjusted layers and unchanged in the excluded ones, for any pattern of excluded layers. Unless done in place the given profile is unchanged, and an unattainable target or no adjustable layer is refused without changing anything. Site attenuation is the sum of twice damping times travel time.",
  ["inputs", "configurations"], "all profiles, targets and exclusion rules (name pattern, list of names, callable)",
  "Tests adjust one profile without interior exclusions.",
  ["tools.py", "site.py"], [("adjust_damping_values / calc_atten_scatter", "tools.py"), ("Profile.site_attenuation", "site.py")],
  ["Layer.damping_min, Profile.site_attenuation"])

p("C24", "Site averages integrate the velocity column",
  "Travel time of a layer is thickness over velocity, the time-averaged velocity to any depth is that depth over the travel time to it (the half-space continuing below the profile), and Vs30 is its value at 30 m for profiles at least that deep. Time averages are unchanged by splitting layers into identical sublayers, and a uniform column returns its own velocity. Time averages use the current (strain-compatible) velocities, Vs30, slowness and the simplified Rayleigh velocity (Urzua et al. 2017) the initial ones, after any edits and calculations.",
  ["inputs"], "all profiles and depths, including depths inside layers, at interfaces and below the profile",
  "Tests evaluate one or two profiles.",
  ["site.py"], [("Profile.time_average_vel / vs30 / travel_time / simplified_rayliegh_vel", "site.py")],
  ["time_average_vel, vs30, travel_time"])

p("C25", "Generic profile helpers preserve travel time and mass",
  "Simplifying a loaded crustal-model profile groups consecutive layers whose velocity is within the tolerance of the first of the group and keeps the depth of every group top and, down to the top of the last group, travel time and weight. Mean effective stress at layer middles is the overburden less pore pressure below the water table times (1 + 2 k0)/3, and thickness is the difference of depths. The regional velocity model returns at every depth its published median and standard deviation.",
  ["inputs"], "all tabulated profiles, tolerances, water tables, depths, Vs30 values and regions",
  "Tests load one profile and evaluate few depths.",
  ["generic.py", "tools.py"], [("load_ncm_profile / _simplify_profile / kea16_profile", "generic.py"), ("calc_mean_eff_stress", "tools.py")],
  ["returned tables"])

p("C26", "Empirical soil models give the published and admissible curves",
  "Each empirical soil model (Darendeli, Menq, two-parameter hyperbolic, Rollins, Alemu, Kishida, Wang) yields at its strains the modulus reduction and damping of its equations for the given parameters; within the models' ranges modulus reduction is in (0, 1] and does not increase with strain and damping is at least its minimum. A given minimum damping is used, and a larger confining stress gives a larger reference strain. The Wang model uses the most detailed level for which every index parameter was supplied and refuses a missing mean stress.",
  ["inputs", "configurations"], "all parameter values in the models' ranges and all subsets of optional parameters",
  "Tests compare stored curves for few parameter sets.",
  ["site.py"], [("ModifiedHyperbolicSoilType and subclasses", "site.py"), ("WangSoilType.get_level and equations", "site.py")],
  ["mod_reduc and damping strains/values, damping_min"])

p("C27", "Plots show the recorded results and add to what the axes hold",
  "Plotting an output draws one line per recorded result through its references and values, labelled with its name (profile outputs against depth, downwards, each value over the depths it applies to); the statistics style adds the median and is refused for two results, and plotting a profile draws each layer's current value from its top to its base. The amplification-evolution plot shows at each depth and frequency the magnitude of the transfer function from the input, or the ratio of response spectra, relative to the deepest row when normalised. Plotting into existing axes adds to them without changing what they hold, and changes neither outputs, profiles nor calculations.",
  ["histories", "inputs", "configurations"], "all outputs with any number of results and missing values, styles, sequences of plots in several axes, metrics, depths and frequencies",
  "Tests of the plots only compare image files of a few outputs, or that plotting does not raise.",
  ["output.py", "site.py"], [("Output.plot / ProfileBasedOutput.plot / plot_amplification_evolv", "output.py"), ("Profile.plot", "site.py")],
  ["lines, labels, limits and mesh values of the matplotlib axes"])

p("C28", "Equal soil types and layers are one key",
  "Two soil types are equal exactly when kind, name, unit weight and curves or damping agree, two layers when soil type, thickness and initial velocity agree; equality is symmetric and equal things have the same hash, which straining or resetting a layer does not change. Sets and dictionaries keyed by them, also across calculations, find exactly the entry put in. A profile finds a layer of its own at that layer's position, otherwise the first equal one, and lists each soil type once in order of depth.",
  ["histories", "inputs"], "all soil types and layers, copies, and sequences of dictionary operations with strains, minimum dampings and resets between",
  "No test uses them as keys, and whether a changing hash is noticed depends on memory reuse.",
  ["site.py"], [("SoilType.__eq__ / __hash__, Layer.__eq__ / __hash__", "site.py"), ("Profile.index / iter_soil_types", "site.py")],
  ["==, hash, set and dict operations, Profile.index, in"])

if __name__ == "__main__":
    out = Path(__file__).resolve().parent.parent / "properties.jsonl"
    out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
    for x in P:
        n = x["statement"].count(". ") + 1
        if n > 3 or len(x["title"]) > 80:
            print(x["id"], n, len(x["title"]))
