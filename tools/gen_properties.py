"""Writes properties.jsonl (one source of truth for the property texts)."""
import json, os
O = []
S = "src/exoplanet/"
def P(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=[S + f for f in files],
                          mechanism=[dict(name=n, where=S + w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=S + w) for n, m, w in state]
    assert len(title) <= 80, title
    O.append(d)

P("C01", "A model's acknowledgement lists exactly the works its components need",
  "For every model, the acknowledgement text and bibliography returned to the user list exoplanet, ArviZ and exactly the works of the components built for that model (a component whose construction failed may be counted or not), each once, however many models and components are built, failed or queried before, nested inside or concurrently in other threads, including threads adding to the same model. Reading the acknowledgement never fails or changes anything, and a model without components gives two empty strings.",
  ["schedules", "histories", "fault_sequences"],
  "All interleavings of threads that enter models, build components for the current or an explicitly given model, fail while doing so, and read acknowledgements.",
  "The only test builds one light curve in one model in one thread; it cannot reach interleavings of registrations and reads, shared models, or failed constructions.",
  ["citations.py", "light_curves/limb_dark.py", "orbits/keplerian.py", "distributions/distributions.py", "distributions/eccentricity.py"],
  [("add_citations_to_model", "citations.py"), ("get_citations_for_model", "citations.py")],
  ["exoplanet.citations.get_citations_for_model", "component constructors"],
  [("per-model registry", "which works the model's components need", "citations.py")])

P("C02", "A failed or interrupted component call leaves model contexts intact",
  "Whenever a call that adds a prior or component to a PyMC model returns, raises or is interrupted at any point, the calling thread's stack of active models is what it was before the call, variables have been added only to the target model (the one passed explicitly, else the current one), and every variable that existed before is untouched. The target model then still accepts a new component, which gets exactly the variables a first-time call would add.",
  ["crash_points", "histories", "fault_sequences"],
  "All fault points (any call the library makes fails with an error or a keyboard interrupt) in all sequences of component calls over nested, explicit and concurrent models.",
  "The tests only run calls that succeed, in one current model; no test fails a call part-way and looks at the context afterwards.",
  ["distributions/distributions.py", "distributions/eccentricity.py", "light_curves/limb_dark.py", "orbits/keplerian.py", "citations.py"],
  [("with model / with pm.Model(name)", "distributions/eccentricity.py"), ("pm.modelcontext", "citations.py")],
  ["exoplanet.eccentricity.kipping13", "exoplanet.eccentricity.vaneylen19", "exoplanet.angle", "exoplanet.unit_disk", "exoplanet.quad_limb_dark", "exoplanet.impact_parameter", "exoplanet.LimbDarkLightCurve", "exoplanet.orbits.KeplerianOrbit"])

P("C03", "Concurrent threads build models without influencing each other",
  "When several threads build and query their own orbits, light curves, priors and interpolators at the same time, every thread obtains exactly the values it would obtain running alone, under every interleaving, also when another thread's call fails or is interrupted half-way.",
  ["schedules", "fault_sequences"],
  "All interleavings at line granularity of the library's code over threads running independent construct-and-query workloads with injected failures.",
  "Every existing test is single-threaded; shared mutable state between instances is invisible to it.",
  ["orbits/keplerian.py", "orbits/ttv.py", "orbits/simple.py", "light_curves/limb_dark.py", "light_curves/secondary_eclipse.py", "interp.py", "distributions/distributions.py", "units.py", "utils.py"],
  [("instances hold only their own graph", "orbits/keplerian.py")],
  ["public constructors and query methods in concurrently running threads"])

P("C04", "Calls never modify the caller's inputs, so a failed call can be retried",
  "No constructor, query or estimator call changes any array, list, tensor, shared container or unit tag handed to it by the caller (attaching a unit is what with_unit itself does), whether the call returns or fails at any point. Repeating a call with the same inputs, after a success or after any failure, therefore succeeds and gives the same answer as the first time.",
  ["crash_points", "histories", "inputs"],
  "All fault points in all calls, over sequences of calls that reuse the same caller-owned inputs.",
  "Tests use each input once and never look at it again; none retries a call after a failure.",
  ["orbits/keplerian.py", "orbits/ttv.py", "orbits/simple.py", "light_curves/limb_dark.py", "light_curves/secondary_eclipse.py", "estimators.py", "interp.py", "units.py", "distributions/distributions.py"],
  [("as_tensor_variable", "utils.py"), ("with_unit/to_unit", "units.py")],
  ["caller-owned arguments before and after each call"])

P("C05", "A long-lived Keplerian orbit always answers for its current inputs",
  "An orbit whose inputs live in updatable containers answers every query (positions, velocities, accelerations, radial velocities, derived stellar and orbital parameters with their reported Jacobians, in-transit indices) with the two-body solution for the input values current at that query. This holds for any history of input updates, changes in the number of timestamps, earlier, repeated, interrupted or failed queries, orbits built from the same containers, and restarts of the process from its saved state.",
  ["histories", "crash_points", "fault_sequences", "configurations"],
  "All histories of update, resize, query, fault, checkpoint and crash-restart operations over all supported parameterizations.",
  "Tests build a fresh orbit from constants and query it once; no test updates inputs, mixes queries on one orbit or restores a saved one.",
  ["orbits/keplerian.py", "orbits/constants.py", "units.py", "utils.py"],
  [("KeplerianOrbit.__init__", "orbits/keplerian.py"), ("_get_position/_get_velocity/_get_acceleration", "orbits/keplerian.py"), ("in_transit", "orbits/keplerian.py")],
  ["exoplanet.orbits.KeplerianOrbit methods and attributes"])

P("C06", "A long-lived transit light curve always answers for its current inputs",
  "A limb-darkened transit or secondary-eclipse light curve over updatable inputs always gives the flux of the current orbit, radii, limb darkening, timestamps and exposure times, one column per planet, zero outside transit, averaged over each exposure with the documented scheme; a light curve interpolated from a phase grid equals the documented cubic interpolation of it. Skipping out-of-transit timestamps never changes any value, and this holds for any history of updates, changes in the number of timestamps, shared light-curve or orbit objects, interrupted or failed queries, and restarts.",
  ["histories", "crash_points", "fault_sequences", "configurations"],
  "All histories of update, resize, query, fault, checkpoint and crash-restart operations over orbit types, exposure settings and limb-darkening values.",
  "Tests compare a handful of fixed configurations evaluated once; the in-transit shortcut depends on the data at run time, which they never change.",
  ["light_curves/limb_dark.py", "light_curves/secondary_eclipse.py", "orbits/keplerian.py", "orbits/simple.py", "orbits/ttv.py"],
  [("LimbDarkLightCurve.get_light_curve", "light_curves/limb_dark.py"), ("in_transit", "orbits/keplerian.py"), ("SecondaryEclipseLightCurve.get_light_curve", "light_curves/secondary_eclipse.py")],
  ["LimbDarkLightCurve.get_light_curve", "SecondaryEclipseLightCurve.get_light_curve"])

P("C07", "Transit-timing orbits keep every transit at its current labelled time",
  "For an orbit with timing variations given either as offsets or as transit times (possibly with unobserved transits), every planet is at mid-transit at each of its current transit times, timestamps follow the nearest labelled transit, and the reported transit times, offsets, reference time and mean period are mutually consistent with the current inputs. The transits expected in a window are those of the periodic ephemeris inside it, however the window is split. This holds through any history of updates to times or offsets, resized timestamps, queries, failures and restarts, and without variations the orbit equals the plain periodic one.",
  ["histories", "crash_points", "fault_sequences", "configurations"],
  "All histories of update, resize, query, fault and crash-restart operations over numbers of planets, transits, gaps and parameterizations.",
  "Tests check one data set with constant inputs and no gaps.",
  ["orbits/ttv.py", "orbits/keplerian.py"],
  [("TTVOrbit.__init__", "orbits/ttv.py"), ("_warp_times/_get_model_dt", "orbits/ttv.py")],
  ["exoplanet.orbits.TTVOrbit attributes and methods"])

P("C08", "A long-lived simple transit orbit always answers for its current inputs",
  "A simple transit orbit over updatable inputs places each planet on a straight chord at the current impact parameter, in front of the star exactly within half a current duration of each transit centre, and lists as in transit exactly the timestamps whose (exposure-widened) chord position overlaps the star. This holds for any history of updates, resized timestamps, queries, failures and restarts.",
  ["histories", "crash_points", "fault_sequences"],
  "All histories of update, resize, query, fault and crash-restart operations over one or several planets, with and without radius ratio, radii and exposure times.",
  "Two tests with constant inputs and one planet.",
  ["orbits/simple.py"],
  [("get_relative_position", "orbits/simple.py"), ("in_transit", "orbits/simple.py")],
  ["exoplanet.orbits.SimpleTransitOrbit methods"])

P("C09", "A long-lived interpolation table always answers for its current contents",
  "An interpolator over updatable grids, tables and coordinates returns the multilinear interpolation of the current table at every coordinate inside the current grid including its edges, the fill value (if any) exactly for coordinates outside it, and otherwise the linear extrapolation of the edge cell. This holds for any history of table, grid and coordinate updates and resizes, repeated and interrupted queries, and restarts.",
  ["histories", "crash_points", "fault_sequences"],
  "All histories of update, resize, query, fault and crash-restart operations over dimensions, output shapes and uneven grids.",
  "Two tests with a constant table and two interior or far-outside points.",
  ["interp.py"],
  [("regular_grid_interp", "interp.py")],
  ["exoplanet.interp.RegularGridInterpolator.evaluate", "exoplanet.interp.regular_grid_interp"])

P("C10", "Splitting, reordering or redelivering timestamps never changes the model",
  "When a time series is evaluated in batches of any size, delivered to workers in any order, possibly lost and resent, duplicated, or recomputed after a worker crash, the values assembled per timestamp equal those of one evaluation of the whole series, for orbit coordinates, radial velocities, light curves and interpolated tables alike. Each timestamp's value depends on that timestamp (and its exposure time) only.",
  ["schedules", "fault_sequences"],
  "All partitions into batches and all delivery schedules with loss, duplication, reordering, delay and worker crashes.",
  "Tests evaluate sorted, complete series in a single call.",
  ["light_curves/limb_dark.py", "light_curves/secondary_eclipse.py", "orbits/keplerian.py", "orbits/ttv.py", "orbits/simple.py", "interp.py"],
  [("in_transit", "orbits/keplerian.py"), ("get_light_curve", "light_curves/limb_dark.py"), ("_get_model_dt", "orbits/ttv.py")],
  ["values per timestamp of public query methods"])

P("C11", "A corrupted datum affects only its own entry",
  "If single stored values are corrupted (NaN, infinite or absurdly large), the damage stays contained: a corrupted timestamp or exposure time changes only the model value of that timestamp, a corrupted planet parameter only that planet's column (an impossible eccentricity may instead be refused with an error), and a corrupted table coordinate only its own row. Once the value is repaired all answers are as if the corruption had never happened.",
  ["fault_sequences", "histories"],
  "All placements of corrupted values (bit flips, NaN, infinities) among timestamps, exposure times, planet parameters and coordinates, and later repairs.",
  "No test contains a non-finite input.",
  ["light_curves/limb_dark.py", "orbits/keplerian.py", "orbits/ttv.py", "orbits/simple.py", "interp.py"],
  [("in_transit", "orbits/keplerian.py"), ("get_light_curve", "light_curves/limb_dark.py")],
  ["values of all entries other than the corrupted one"])

P("C12", "Chains give the same draws on any worker and after any crash",
  "A transit or radial-velocity model shipped to worker processes gives on every worker, and after every crash and restart from its saved bytes, the same log-probability, gradient and derived quantities as in the process that built it, with the gradient matching the log-probability's slope. Hence chains of a seeded sampler produce the same draws whatever the assignment to workers, the interleaving of chains, and the points at which workers crash and resume from their last checkpoint.",
  ["schedules", "crash_points", "fault_sequences"],
  "All schedules of chains on workers with crashes, restarts from durable bytes, duplicated and delayed draw messages.",
  "No test serializes a model or restarts anything; pm.sample's pool is exercised only by accident and its results are never compared.",
  ["distributions/distributions.py", "distributions/eccentricity.py", "orbits/keplerian.py", "light_curves/limb_dark.py", "compat.py", "units.py"],
  [("graph-only model components", "orbits/keplerian.py"), ("Potential/Deterministic registration", "distributions/distributions.py")],
  ["log-probability, gradient and deterministics of the restored model"])

P("C13", "Geometric priors stay in support with the documented density on any chain",
  "Along every sampling chain, at every state visited and for any random stream, starting value, shape and crash-resume point, angle lies in [-pi, pi] with a density independent of direction, unit_disk stays inside the unit disk with uniform density, quad_limb_dark gives only physical limb darkening with Kipping's uninformative density, and impact_parameter lies in [0, 1+ror] with uniform density for the current ror. Chains start at the starting values the user gave.",
  ["schedules", "histories", "inputs"],
  "All random streams, starting points, shapes and checkpoint-restart points of a sampler.",
  "Tests run one seeded chain per prior and compare a coarse KS statistic (5%), from the default starting value only.",
  ["distributions/distributions.py"],
  [("angle", "distributions/distributions.py"), ("unit_disk", "distributions/distributions.py"), ("quad_limb_dark", "distributions/distributions.py"), ("impact_parameter", "distributions/distributions.py")],
  ["log-probability and deterministics at each visited state"])

P("C14", "Eccentricity priors keep bounds and documented density on any chain",
  "Along every sampling chain, for any random stream, options, bounds, shape, starting value and crash-resume point, kipping13 has the published beta density (restricted and renormalized to the bounds when given) and vaneylen19 the published half-normal/Rayleigh mixture density within its bounds, with the published parameters or hyperpriors for the chosen population, and every draw respects the bounds. An eccentricity supplied as observed gets the same density added to the model, without new eccentricity variables.",
  ["schedules", "histories", "configurations"],
  "All random streams, option combinations, bounds and checkpoint-restart points of a sampler.",
  "Tests run one seeded chain per option with a 5% KS tolerance, and for bounded or marginalized options check the range only.",
  ["distributions/eccentricity.py"],
  [("kipping13", "distributions/eccentricity.py"), ("vaneylen19", "distributions/eccentricity.py"), ("_truncate", "distributions/eccentricity.py")],
  ["log-probability and draws of models using the priors"])

P("C15", "Seeded draws are reproducible whatever else the process has done",
  "Forward draws from a model using the library's priors with a given random seed are identical on every repetition, in a restarted process, and regardless of the state of the process-wide random generators, of other models built, sampled or failed before, and of work other threads do meanwhile; and forward draws always lie in the documented support.",
  ["schedules", "histories", "inputs"],
  "All seeds and all histories or thread interleavings of unrelated activity between two seeded draws.",
  "Tests seed everything globally once and never repeat a draw.",
  ["distributions/distributions.py", "distributions/eccentricity.py"],
  [("priors built only from PyMC variables", "distributions/distributions.py")],
  ["pm.draw / pm.sample_prior_predictive output for fixed seeds"])

P("C16", "With failing dependencies the package refuses to load or is equivalent",
  "If importing or initializing any dependency fails while the package loads (missing optional module, failing unit machinery, chosen but absent backend), loading either fails loudly with an import error, or the package works and every answer it gives equals that of a healthy installation, with features that need the missing part failing explicitly. After the fault is gone a fresh load behaves normally.",
  ["fault_sequences", "configurations", "crash_points"],
  "All dependency imports and unit conversions performed while loading, failing singly or together, for all backend settings.",
  "The tests only ever load the healthy package; the fallback constants and optional-import branches are never executed.",
  ["compat.py", "orbits/constants.py", "estimators.py", "__init__.py"],
  [("fallback constants", "orbits/constants.py"), ("optional imports", "estimators.py"), ("backend selection", "compat.py")],
  ["import result, then orbits, estimators and units of the loaded package"])

P("C17", "Period and mass estimates survive reordered, resent and re-clocked data",
  "Estimates from a time series do not depend on the order in which observations arrived or the units they were given in, nor, where uncertainties are used, on whether an observation arrives once or as two copies of twice the variance; shifting the clock origin (with the reference times) leaves periods, powers and amplitudes unchanged and moves reported transit times by the shift. Minimum masses are those the amplitudes estimated from the same data imply. The peak summary always describes the highest peak (after the requested filter) of the periodogram returned with it, restricted to the requested period range; for the autocorrelation, the higher one of its first two peaks.",
  ["fault_sequences", "histories", "inputs"],
  "All delivery orders, duplications and clock-origin jumps of an observation stream, over sampling patterns and search options.",
  "One noise-free or nearly noise-free sorted series per estimator with a single option set.",
  ["estimators.py"],
  [("estimate_semi_amplitude/estimate_minimum_mass", "estimators.py"), ("lomb_scargle_estimator", "estimators.py"), ("bls_estimator/find_peaks", "estimators.py")],
  ["returned estimates, periodograms and peaks"])

P("C18", "A unit tag is attached once, survives restarts and is always honoured",
  "Through any history of tagging, re-tagging, conversion, orbit construction, interruption, concurrent work and save-restore, a value reports a unit if and only if one was attached to it, attaching a second one is refused and changes nothing, and conversion (also inside orbits, for every parameter that accepts units) yields the physically equal value in the target unit while untagged values pass unchanged. Interrupted tagging leaves a value either tagged or untagged with its number unchanged, and orbits given the same physical inputs in different units agree.",
  ["histories", "crash_points", "fault_sequences"],
  "All histories of tag, convert, build, interrupt, save and restore operations over units and value kinds.",
  "One test compares two ways of giving a planet mass.",
  ["units.py", "orbits/keplerian.py"],
  [("with_unit/has_unit/to_unit", "units.py"), ("_get_consistent_inputs", "orbits/keplerian.py")],
  ["exoplanet.units functions", "KeplerianOrbit attributes"],
  [("unit tag", "unit attached to a tensor", "units.py")])

P("C19", "Calls leave process-wide state alone, even when they fail",
  "No call of the library (other than the documented plotting setup helper) changes process-wide state: random generator state, warning filters, floating-point error modes, PyTensor configuration, logging set-up, environment, the published citation table, or the library's defaults. This holds when the call fails or is interrupted at any point and when several threads call concurrently.",
  ["crash_points", "histories", "schedules"],
  "All fault points in all sequences of calls, with process-wide state compared before and after each.",
  "No test looks at process-wide state.",
  ["citations.py", "utils.py", "estimators.py", "orbits/keplerian.py", "light_curves/limb_dark.py", "distributions/distributions.py"],
  [("no global writes", "utils.py"), ("warning for models without citations", "citations.py")],
  ["process-wide state before and after each call"])

# ---- pure functions of their input: listed, not claimed
def N(id, title, statement, text, why, files, mech, observe):
    P(id, title, statement, ["inputs"], text, why, files, mech, observe)

N("C20", "Light-curve and orbit gradients are exact everywhere in the domain",
  "The derivative of every orbit coordinate, radial velocity and light curve with respect to every continuous input equals the mathematical derivative wherever that exists, including near contact points and at high eccentricity, and is finite there.",
  "All inputs in the physical domain.", "verify_grad on one light curve.",
  ["light_curves/limb_dark.py", "orbits/keplerian.py"], [("quad_solution_vector gradient", "light_curves/limb_dark.py")], ["pytensor.grad of outputs"])
N("C21", "The flux is accurate at singular geometries and for all radius ratios",
  "The limb-darkened flux agrees with the exact surface integral to near machine precision for all impact parameters and radius ratios, including b=r, b=1-r, b=1+r and r>1.",
  "All impact parameters, radius ratios and limb-darkening coefficients.", "Five singular points with one limb-darkening law.",
  ["light_curves/limb_dark.py"], [("quad_limbdark_light_curve", "light_curves/limb_dark.py")], ["LimbDarkLightCurve.get_light_curve"])
N("C22", "Approximate depth and radius ratio are inverse to each other",
  "The radius ratio computed from an approximate transit depth reproduces that depth in the small-planet approximation, and the reported Jacobian is its derivative.",
  "All depths, impact parameters below one and limb-darkening coefficients.", "Six hand-picked points.",
  ["light_curves/limb_dark.py"], [("get_ror_from_approx_transit_depth", "light_curves/limb_dark.py")], ["LimbDarkLightCurve.get_ror_from_approx_transit_depth"])
N("C23", "Duration, impact parameter and scaled semimajor axis are consistent",
  "For a circular orbit the scaled semimajor axis implied by a duration reproduces that duration between first and fourth contact, and all reported Jacobians of the duration and impact-parameter transforms are the true derivatives.",
  "All durations, periods, impact parameters and radius ratios.", "One parameter set.",
  ["orbits/keplerian.py"], [("get_aor_from_transit_duration", "orbits/keplerian.py")], ["KeplerianOrbit.jacobians"])
N("C24", "Expected transit times are exactly those inside the window",
  "The expected transit times for a window are all times t0 + k*period inside the closed window, each once, in order, for every planet.",
  "All windows, periods and reference times.", "One window with two planets; boundary times never hit.",
  ["orbits/ttv.py"], [("compute_expected_transit_times", "orbits/ttv.py")], ["exoplanet.orbits.ttv.compute_expected_transit_times"])
N("C25", "Inconsistent or missing orbit arguments are rejected",
  "Every unsupported combination of orbit arguments raises an error instead of silently choosing some of them, and every supported combination is accepted.",
  "All subsets of constructor arguments.", "A few combinations.",
  ["orbits/keplerian.py", "orbits/ttv.py"], [("argument checks", "orbits/keplerian.py")], ["KeplerianOrbit constructor"])
N("C26", "Estimators recover injected signals",
  "On data with a sufficiently strong periodic signal inside the searched range, each estimator returns its period, and the amplitude and mass estimators the injected amplitude and mass, within the stated uncertainty.",
  "All signals, sampling patterns and noise levels above a detection threshold.", "One synthetic series per estimator.",
  ["estimators.py"], [("estimators", "estimators.py")], ["returned period/amplitude/mass"])
N("C27", "Interpolated light curves converge to the base light curve",
  "A light curve interpolated from a phase grid approaches the base light curve as the number of grid phases grows.",
  "All orbits, radii and grid sizes.", "Untested.",
  ["light_curves/interpolated.py"], [("interp", "light_curves/interpolated.py")], ["InterpolatedLightCurve.get_light_curve"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in O:
        f.write(json.dumps(d) + "\n")
print(len(O))
