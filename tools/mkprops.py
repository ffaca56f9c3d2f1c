"""Writes /verif/properties.jsonl and /verif/MANIFEST.json.  Titles, techniques, notes and bounds come from the check classes;
statements, quantifiers, reasons and anchors are in the table below.   python tools/mkprops.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from mc import run  # noqa: E402

S = "src/falwa/"
OOP, BAS, WRA, UTI, BF, XR, DS = [S + n for n in ("oopinterface.py", "basis.py", "wrapper.py", "utilities.py", "barotropic_field.py",
                                                "xarrayinterface.py", "data_storage.py")]
F = S + "f90_modules/"
T8 = "the stable tests sample a single small reanalysis snapshot and compare a few numbers or signs"


def P(statement, over, text, why, files, mech, observe, state=()):
    return dict(statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=observe, hook_needed=None))


I, C, H, SCH, PR = "inputs", "configurations", "histories", "schedules", "programs"

TABLE = {
"C01": P("For any field, area map and contour count, the equivalent-latitude relation assigns to each latitude the contour value such that the area "
         "holding smaller values equals the area south of that latitude. Contour values run from the smallest to the largest value of the field, are evenly spaced, and the relation is monotonic, "
         "depends on the field only through the areas of its values, and scales with the planet radius through the areas only.",
         [I, C], "every two-dimensional field, grid, cell-area map, number of contours and planet radius",
         "Tests look at one analytic field; bin-edge assignment, empty bins and repeated values depend on the field, and only enumerating whole classes of fields reaches them.",
         [BAS], [("histogram of areas over contour bins, cumulative area to latitude, interpolation", BAS + ":eqvlat_fawa")],
         ["falwa.basis.eqvlat_fawa / eqvlat_vgrad return values"]),
"C02": P("Zonal finite-amplitude wave activity equals the area-weighted difference between the contour integral of the field and the zonal integral over the cap of the same area, in units set by the planet radius. "
         "Adding a constant to the field leaves it unchanged. The bracketed mean of an accompanying field at a contour is the average of its area-weighted means over the contour bins next to that contour that hold points "
         "(the last bin includes the largest value); a uniform accompanying field gives that uniform value.",
         [I, C], "every field, accompanying field, area map, contour count and planet radius",
         "One smooth sample field cannot exercise empty bins, ties, or accompanying fields that vary inside a bin.",
         [BAS], [("wave activity from the area integral difference", BAS + ":eqvlat_fawa"), ("bin means of an accompanying field", BAS + ":eqvlat_vgrad")],
         ["falwa.basis.eqvlat_fawa / eqvlat_vgrad return values"]),
"C03": P("Barotropic local wave activity at a point is the meridional displacement integral, along that meridian, of the anomaly of the field relative to the reference value of that latitude; it is non-negative, "
         "and its positive (cyclonic) and negative (anticyclonic) parts are each non-negative and add up to the total. A field equal to its reference has none, each longitude depends only on its own column, and an accompanying forcing is integrated over exactly the same displaced points.",
         [I, C], "every field, monotonic reference profile, forcing and meridional weight",
         "Ties between field and reference, displaced parcels on both sides and multiple crossings in one column appear only for particular fields.",
         [BAS, WRA], [("displacement integral and partition", BAS + ":lwa"), ("reference from area analysis", WRA + ":barotropic_eqlat_lwa"), ("reference supplied by the caller", WRA + ":barotropic_input_qref_to_compute_lwa")],
         ["falwa.basis.lwa, falwa.wrapper.barotropic_eqlat_lwa, barotropic_input_qref_to_compute_lwa return values"]),
"C04": P("Every hemispheric wrapper gives, in each hemisphere, the reference profile and wave activity that the single-domain analysis of that hemisphere alone (seen from its own pole, in its own sign) gives, laid out on the latitudes of the input. "
         "Optional outputs requested by the caller (bracketed mean, forcing integral, mean gradient) are those of the same analysis, and no hemisphere influences the other.",
         [I, C], "every field, hemispheric extent, contour count and combination of options",
         "The tests call one wrapper on one field; orientation and sign mistakes cancel in symmetric samples.",
         [WRA], [("hemisphere extraction, flips and signs", WRA + ":eqvlat_hemispheric"), ("options", WRA + ":qgpv_eqlat_lwa_options"), ("bracket", WRA + ":eqvlat_bracket_hemispheric"),
                 ("other wrappers", WRA + ":qgpv_eqlat_lwa, qgpv_eqlat_lwa_ncforce, qgpv_input_qref_to_compute_lwa, theta_lwa")],
         ["return values of the wrappers"]),
"C05": P("The barotropic field object returns the equivalent latitudes and wave activity that the definitions give for its field, grid, areas and contour count, whether these are supplied or left to their defaults. "
         "The result does not depend on the order or number of times its results are read, nor on reads that ended part-way, and the object never modifies the caller's arrays; partitioned results add up to the total.",
         [I, C, H], "every field, every combination of optional arguments, every sequence of reads",
         "Lazily computed results make the outcome depend on access order; tests read each once.",
         [BF, WRA], [("lazy evaluation and defaults", BF + ":BarotropicField")], ["BarotropicField.equivalent_latitudes, .lwa"],
         [("cached results", "computed on first read", BF + ":BarotropicField")]),
"C06": P("Zonal convergence and meridional divergence of a flux and the curl of a wind equal their centred spherical differences at interior points, with periodic longitude, one-sided rows at the edges and zero at the poles where the cosine of latitude vanishes. "
         "They are linear, accept any numeric type without losing precision, leave the input untouched and use the given radius and tolerance.",
         [I, C], "every field on every latitude-longitude grid, radius and pole tolerance",
         "The existing tests check signs for one field; stencil, edge rows, wrap-around and metric factors need every impulse.",
         [UTI], [("differences", UTI + ":zonal_convergence, meridional_divergence, curl_2d")], ["return values of the operators"]),
"C07": P("The hemispheric mean potential temperature is the area-weighted mean over the grid points of each hemisphere, and static stability is its vertical derivative (centred inside, one-sided at the ends), for any hemispheric extent. "
         "The potential vorticity operator adds to the given vorticity the density-weighted vertical derivative of the scaled temperature anomaly in each hemisphere, and the vertical derivative of a product follows its documented difference formula.",
         [I, C], "every field, hemispheric extent, number and spacing of levels",
         "No stable test calls these operators on more than one grid; uneven spacing and other extents stay unseen.",
         [UTI], [("mean and stability", UTI + ":static_stability"), ("QGPV from vorticity", UTI + ":compute_qgpv_givenvort"), ("vertical derivative", UTI + ":z_derivative_of_prod")],
         ["return values of the operators"]),
"C08": P("The covariance map of two fields is, at every grid point, the sample covariance over time of the two series at that point, symmetric in its arguments, bilinear, unaffected by adding constants, and equal to the variance for equal arguments. "
         "Inputs are left unchanged.",
         [I], "every pair of fields and every number of times", "No test calls it.", ["src/falwa/stat_utils.py"],
         [("moments over time", "src/falwa/stat_utils.py:calculate_covariance")], ["return value"]),
"C09": P("Extracting time slices from a file writes a file that holds exactly the requested snapshots of every variable, in the requested order, together with the coordinates of the source; negative and repeated indices are honoured. "
         "The source file is left unchanged and an existing output is replaced.",
         [I, H], "every file layout and every list of time indices", "No test calls it.", ["src/falwa/netcdf_utils.py"],
         [("selection along time", "src/falwa/netcdf_utils.py:extract_one_timeslice")], ["contents of the written file"]),
"C10": P("An analysis never modifies the arrays it is given, and equal values give equal results however they are stored (memory order, strides, masked arrays, byte order, precision, read-only memory). "
         "Inputs whose shapes disagree with the coordinates, latitudes that are not ascending or miss the equator on odd grids, pressure that is not descending, and more levels than the data reach are refused at construction; all other settings are taken over unchanged.",
         [I, C], "every accepted representation of an input and every malformed input", "Tests try a few malformed shapes; combinations with grid type and class are unexplored.",
         [OOP], [("input checks", OOP + ":QGFieldBase.__init__ and its _check_ helpers")], ["constructor outcome; arrays passed by the caller; every result"]),
"C11": P("Winds and potential temperature on the analysis grid are the linear interpolation in pseudoheight of the input (potential temperature formed from the given gas constants), or the input itself when it is already evenly spaced in pseudoheight; "
         "pseudoheight, levels, density weights, hemispheric mean temperature and static stability follow from the given scale height and constants.",
         [I, C], "every atmosphere, pressure grid, level count and spacing, set of physical constants",
         T8 + "; wrong levels, ignored constants or one-off rows survive.",
         [OOP, UTI], [("interpolation", OOP + ":QGFieldBase.interpolate_fields"), ("stability", OOP + ":QGFieldBase._compute_static_stability_func")],
         ["interpolated_u, interpolated_v, interpolated_theta, static_stability, height"], [("interpolated fields", "fields on the analysis grid", DS + ":InterpolatedFieldsStorage")]),
"C12": P("In the NH18 formulation the potential vorticity published at every point is planetary plus relative vorticity plus the stretching term formed with the zonal-mean absolute vorticity and the hemisphere's mean temperature and stability; "
         "the first and last level carry absolute vorticity only and the pole rows their zonal limit.",
         [I, C], "every atmosphere, grid and set of constants", T8 + ".", [OOP, F + "compute_qgpv.f90"],
         [("QGPV kernel", F + "compute_qgpv.f90"), ("call", OOP + ":QGFieldNH18._compute_qgpv")], ["qgpv"]),
"C13": P("In the NHN22 formulation the potential vorticity published at every point is absolute vorticity plus the planetary vorticity times the density-weighted vertical derivative of the temperature anomaly scaled by the stability of its own hemisphere.",
         [I, C], "every atmosphere, grid and set of constants", T8 + ".", [OOP, F + "compute_qgpv_direct_inv.f90"],
         [("QGPV kernel", F + "compute_qgpv_direct_inv.f90"), ("call", OOP + ":QGFieldNHN22._compute_qgpv")], ["qgpv"]),
"C14": P("At every level the reference potential vorticity of a hemisphere is the monotonic profile obtained by rearranging the global potential vorticity about the pole of that hemisphere while conserving area, found by accumulating area over the documented number of evenly spaced contour bins from the one next to the largest value down.",
         [I, C], "every atmosphere, grid, number of contours and formulation", T8 + "; the contour-to-area inversion depends on every value of the field.",
         [OOP, F + "compute_reference_states.f90", F + "compute_qref_and_fawa_first.f90"],
         [("area analysis, NH18", F + "compute_reference_states.f90"), ("area analysis, NHN22", F + "compute_qref_and_fawa_first.f90")], ["qref"], [("reference states", "profiles of both hemispheres", DS + ":ReferenceStatesStorage")]),
"C15": P("The NH18 reference wind of each hemisphere, to the requested tolerance, solves the discrete elliptic problem set by the reference potential vorticity, with the conserved circulation at the boundaries and the observed temperature at the surface; "
         "the reference temperature is in thermal-wind balance with it and has the observed hemispheric mean.",
         [I, C], "every atmosphere, grid, set of constants and tolerance", T8 + "; wrong boundary terms shift the solution by less than the tests' thresholds.",
         [OOP, F + "compute_reference_states.f90"], [("relaxation solver", F + "compute_reference_states.f90"), ("hemispheric calls", OOP + ":QGFieldNH18._compute_reference_states")], ["uref, ptref"]),
"C16": P("The NHN22 reference wind of each hemisphere solves the discrete inversion of the reference potential vorticity from the chosen boundary latitude to the pole, with the wind at the boundary latitude given by the conserved circulation and the observed temperature gradient at the ground and the top; "
         "the reference temperature is in thermal-wind balance with it and has the observed hemispheric mean, and nothing is defined equatorward of the boundary.",
         [I, C], "every atmosphere, grid, boundary latitude and set of constants", T8 + ".",
         [OOP, F + "matrix_b4_inversion.f90", F + "matrix_after_inversion.f90", F + "upward_sweep.f90", F + "compute_qref_and_fawa_first.f90"],
         [("block elimination", OOP + ":QGFieldNHN22._compute_reference_states_nhn22_hemispheric_wrapper"), ("matrices", F + "matrix_b4_inversion.f90"), ("recursion", F + "matrix_after_inversion.f90"), ("back substitution", F + "upward_sweep.f90")],
         ["uref, ptref"]),
"C17": P("When the reference wind of a hemisphere does not converge within the iteration limit, the analysis raises or warns as configured, marks the result as non-convergent and publishes no reference wind or temperature from the failed solve as if it were valid. "
         "A later computation that converges gives exactly what a fresh analysis gives and clears the mark.",
         [I, C, H], "every iteration limit, reporting option and call history", "Tests force one non-convergence; which hemisphere fails, in which call history, is not covered.",
         [OOP], [("reporting", OOP + ":QGFieldNH18._nonconvergence_notification"), ("hemispheric solves", OOP + ":QGFieldNH18._compute_reference_states")], ["exceptions, warnings, nonconvergent_uref, qref, uref, ptref"],
         [("nonconvergent_uref", "True when any hemisphere failed", OOP + ":QGFieldBase")]),
"C18": P("Three-dimensional local wave activity at every point of a hemisphere is the meridional displacement integral of potential vorticity relative to the reference profile, poleward cosine-weighted with the parcel's latitude, split in cyclonic and anticyclonic parts that add up to it. "
         "Every computation path that yields wave activity gives the same values, and it is never negative.",
         [I, C], "every atmosphere, grid, formulation and computation path", T8 + "; southern rows and the LWA-only path are not compared.",
         [OOP, F + "compute_flux_dirinv.f90", F + "compute_lwa_only_nhn22.f90"], [("flux kernel", F + "compute_flux_dirinv.f90"), ("LWA only", F + "compute_lwa_only_nhn22.f90"), ("LWA-only call", OOP + ":QGFieldBase.compute_lwa_only")],
         ["lwa, lwa_baro, layerwise_flux_terms_storage"]),
"C19": P("The three zonal wave-activity flux terms (advection by the reference wind, by the eddy wind over displaced parcels, and eddy momentum and heat) equal their defining sums in every layer, their column values are the density-weighted means, "
         "the zonal flux vector is their sum and its convergence the periodic centred difference of that sum.",
         [I, C], "every atmosphere, grid, formulation and set of constants", T8 + ".",
         [OOP, F + "compute_flux_dirinv.f90"], [("flux kernel", F + "compute_flux_dirinv.f90"), ("column means and convergence", OOP + ":QGFieldBase.compute_lwa_and_barotropic_fluxes")],
         ["ua1, ua2, ep1, adv_flux_f1/f2/f3, flux_vector_lambda_baro, convergence_zonal_advective_flux"]),
"C20": P("The meridional eddy momentum flux is evaluated on the rows north and south of every row, its divergence is their scaled difference, the low-level meridional heat flux, the stretching term and the meridional flux vector equal their defining expressions, "
         "in both hemispheres with the proper sign.",
         [I, C], "every atmosphere, grid, formulation and set of constants", T8 + ".",
         [OOP, F + "compute_flux_dirinv.f90"], [("flux kernel", F + "compute_flux_dirinv.f90"), ("stretching", OOP + ":QGFieldBase._compute_stretch_term"), ("meridional flux vector", OOP + ":QGFieldBase._compute_flux_vector_phi_baro")],
         ["ep2, ep3, stretch_term, divergence_eddy_momentum_flux, meridional_heat_flux, flux_vector_phi_baro"]),
"C21": P("Every column quantity (wave activity, wind, the zonal fluxes, momentum flux divergence, non-conservative forcing) is the density-weighted mean over the interior levels of the corresponding layer field, normalised by the published normalisation.",
         [I, C], "every atmosphere, grid, formulation and computation path", T8 + ".",
         [OOP], [("vertical averages", OOP + ":QGFieldBase._vertical_average"), ("normalisation", OOP + ":QGFieldBase._compute_prefactor")], ["all column quantities and layer fields"]),
"C22": P("A heating rate given on the input grid becomes a potential-vorticity forcing by linear interpolation in height and the same stretching operator, planetary vorticity and hemispheric stability as the potential vorticity, linearly in the heating. "
         "The forcing of wave activity is the displacement integral of the given forcing over the displaced parcels, linear in it, unaffected by the latitude convention of the grid, and zero without forcing.",
         [I, C], "every heating rate, forcing, grid and formulation", "One stable test checks shapes only.", [OOP, F + "compute_flux_dirinv.f90"],
         [("forcing from heating", OOP + ":QGFieldBase.compute_ncforce_from_heating_rate"), ("forcing integral", F + "compute_flux_dirinv.f90")], ["compute_ncforce_from_heating_rate; ncforce_baro"]),
"C23": P("Reflecting the atmosphere about the equator (meridional wind reversed) reflects every published quantity, with the sign its parity demands: potential vorticity, meridional fluxes and forcing change sign; winds, temperature, wave activity and zonal fluxes do not.",
         [I, C], "every atmosphere, grid and formulation", "The northern and southern results are computed by different code paths; no test relates them.",
         [OOP], [("southern hemisphere flips and signs", OOP + ":QGFieldBase, QGFieldNH18, QGFieldNHN22")], ["every result"]),
"C24": P("Asking for the northern hemisphere only gives, for every published quantity and on every computation path, exactly the northern part of the global results, on the northern latitudes.",
         [I, C], "every atmosphere, grid, formulation and path", "Tests run one mode per sample.", [OOP, DS], [("hemispheric storage", DS + ":NHemProperty, SHemProperty"), ("output selection", OOP + ":QGFieldBase._return_interp_variables")], ["every result"]),
"C25": P("Shifting the atmosphere by any number of grid points in longitude shifts every longitude-dependent result by the same amount and leaves profiles unchanged.",
         [I, C], "every atmosphere, shift, grid and formulation", "No test shifts its sample.", [OOP], [("periodic differences", OOP + ", " + F)], ["every result"]),
"C26": P("After any sequence of calls on one analysis object, every result equals the one given by the shortest history ending with the call that last defines it; repeated calls change nothing, later calls do not disturb earlier results, and calls before their prerequisites are refused. A call that is refused changes nothing, and one that ends part-way and is repeated gives what it would have given at once. "
         "The tuple a call returns carries the same values as the attributes.",
         [H, C], "every sequence of public calls, of any length", "Tests call each method once in the documented order.", [OOP, DS],
         [("state of one analysis", DS), ("prerequisite checks", OOP + ":QGFieldBase")], ["every attribute after every call"], [("storages", "mutable result arrays shared by the calls", DS)]),
"C27": P("Analysing a dataset with extra dimensions (time, member) gives for each member exactly what the analysis of that member alone gives, on every output of every call, and writing latitude north-to-south or pressure upwards in the input does not change any output.",
         [I, C], "every shape of extra dimensions, orientation, class and option", "Tests use a few shapes and compare a few variables.", [XR], [("member loop, orientation and collection of outputs", XR + ":QGDataset")], ["every variable of every returned dataset"]),
"C28": P("Whatever documented way winds and temperature are passed to the dataset interface (dataset with conventional or explicit names, separate arrays, keyword settings), exactly the named fields are analysed, in the right roles; missing, ambiguous or malformed inputs are refused.",
         [I, C], "every naming convention, argument form and malformed input", "Tests use one or two naming conventions.", [XR], [("name resolution", XR + ":QGDataset.__init__ and its helpers")], ["constructor outcome and the analysed fields"]),
"C29": P("Every returned dataset carries the documented variables with the documented names, dimensions in input order, coordinates equal to those of the grid the values live on (latitudes of the hemisphere where hemispheric), and attributes recording the settings used.",
         [C], "every shape of extra dimensions, orientation, class, hemisphere and grid", "Tests check a few labels for one configuration.", [XR], [("labels and metadata", XR + ":QGDataset")], ["variables, dims, coords and attributes of returned datasets"]),
"C30": P("For any time axis, the integrated wave-activity budget returns the change of wave activity between the end points and the trapezoidal time integral of each budget term, the residual making change equal to the sum of terms; the interval and its length in seconds are reported correctly whatever the resolution of the time coordinate.",
         [I, C], "every time axis (uneven, descending, any resolution), layout and naming", "One test integrates one regular axis.", [XR], [("integration", XR + ":integrate_budget")], ["dataset returned by integrate_budget"]),
"C31": P("Completing a hemispheric dataset to the globe keeps the given hemisphere and adds its mirror image on the missing latitudes, with the meridional wind reversed, the equator row not duplicated and the orientation preserved.",
         [I, C], "either hemisphere and orientation, any row count, layout and names", "One test completes one dataset.", [XR], [("mirroring", XR + ":hemisphere_to_globe")], ["dataset returned by hemisphere_to_globe"]),
"C32": P("Two analyses in one process never influence each other, however their calls interleave, including when one call is suspended part-way while the other runs, when both are, or when one is given up part-way.",
         [SCH, H], "every interleaving of the calls of two analyses and every single preemption between source lines", "Tests run one analysis after the other.", [OOP, DS, XR], [("no state shared between objects", OOP + ", " + DS)], ["every result of both analyses"]),
"C33": P("The legacy reference-wind solver returns the wind and temperature that solve the two discretised boundary-value problems it documents (with and without surface temperature constraint) for the given potential vorticity, temperature and stability, interpolated to the requested grid.",
         [I, C], "every input profile, latitude and level count", "No test calls it.", ["src/falwa/legacy/beta_version.py"], [("direct solve", "src/falwa/legacy/beta_version.py:solve_uref_both_bc")], ["return values"]),
"C34": P("On latitude grids that do not contain the equator, every result is the one obtained on the analysis grid (with the equator) from latitude-interpolated input, interpolated back to the given latitudes, in global and hemispheric output alike.",
         [I, C], "every even-sized grid, atmosphere, formulation and path", "One stable test checks shapes on one even grid.", [OOP], [("latitude interpolation both ways", OOP + ":QGFieldBase._interp_back, _return_interp_variables")], ["every result"]),
"C35": P("Gap filling of a latitude-longitude field changes only the missing points, fills every one of them, treats longitude as periodic and works level by level, leaving complete levels as they are.",
         [I], "every pattern of missing values", "No test calls it.", ["src/falwa/preprocessing.py"], [("per-level filling", "src/falwa/preprocessing.py:gridfill_each_level")], ["return value"]),
"C36": P("No result depends on memory contents the computation does not own: repeating any analysis with all unowned and fresh memory holding different contents gives bit-identical results, and no array is read or written outside its bounds.",
         [C, "fault_sequences"], "every configuration and every content of uninitialised memory", "A test process sees one memory image, usually zeros.", [F, OOP, DS], [("explicitly initialised outputs and loop bounds", F)], ["every result under different memory environments"]),
"C37": P("Leaving out an optional argument of any public class or function gives exactly what passing its documented default gives (49 levels of 1000 m, 100000 iterations, tolerance 1e-5, Jacobi radius 0.95, Earth's constants, as many partitions as latitudes, "
         "hemispheric size and contour count from the grid, both hemispheres, errors raised, boundary index 5, unpartitioned wave activity, no forcing, first time slice), whatever the other arguments are; arguments can be given by position in the documented order or by name.",
         [C, PR], "every public callable, subset of omitted arguments and call form", "Tests call with one set of arguments; a changed default shows only when that argument is omitted and the others make it matter.",
         [OOP, BAS, WRA, UTI, BF, S + "netcdf_utils.py", S + "legacy/beta_version.py"],
         [("field constructors", OOP + ":QGFieldBase.__init__, QGFieldNHN22.__init__"), ("hemispheric defaults", WRA), ("default area and spacing", BF + ":BarotropicField.__init__")],
         ["return values, public attributes and exceptions of each call form"]),
"C38": P("Each plotting function draws exactly the fields it is given at the given coordinates, with the documented or given levels, colour map, titles and size, on a figure of its own: earlier figures and the input arrays stay unchanged, "
         "the file named by the caller (or the documented default, or none) is written, and the time step asked for is the one shown.",
         [C, H], "every combination of plot options and every short sequence of plots in one process", "No stable test draws anything; leaking figures and wrong scales show only for particular option values or call sequences.",
         [S + "plot_utils.py", S + "legacy/beta_version.py"],
         [("comparison of two fields", S + "plot_utils.py:compare_two_fields"), ("map and section plotters", S + "plot_utils.py:LatLonMapPlotter, HeightLatPlotter"), ("snapshot from a file", S + "plot_utils.py:plot_lon_lat_field")],
         ["figures, contour sets and files produced by the plotting functions"]),
"C39": P("The processing scripts that ship with the library write, for every time step of every file they read, exactly what the library gives for that time step, whichever way latitude and pressure run in the input, with matching coordinates and times; "
         "the seasonal digest holds time means and the covariance over the season's months. The hybrid-level script interpolates each column linearly in pressure to the requested levels, fills points outside the column from their level, marks them in the topography, and carries coordinates and attributes over without touching its input.",
         [I, C], "every orientation and length of the input files, column structure and option", "No test runs the scripts.",
         ["scripts/lubis_et_al_2025/cal_lwa_budget_NHN22.py", "scripts/lubis_et_al_2025/cal_ncforce_loop.py", "scripts/mdtf_predigest_data/predigest_data.py", "scripts/mdtf_predigest_data/plot_from_predigest.py",
          "scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py", S + "stat_utils.py", S + "preprocessing.py"],
         [("orientation of the input", "scripts/lubis_et_al_2025"), ("column interpolation and filling", "scripts/pre_process_data_in_hybrid_coordinates")],
         ["files written by the scripts; return values of their functions"]),
}

EXTRA_NOTES = {}


def main():
    props = run.load_props()
    assert sorted(props) == sorted(TABLE), set(props) ^ set(TABLE)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for k in sorted(TABLE):
            assert len(props[k].title) <= 80, k
            f.write(json.dumps(dict(id=k, title=props[k].title, **TABLE[k])) + "\n")
    checks = []
    for k in sorted(TABLE):
        p = props[k]
        note = (p.level_note + ". " if p.level_note else "")
        if isinstance(p.bound, dict):
            note += "Exhaustive within (quick): %s; (thorough): %s." % (p.bound["quick"], p.bound["thorough"])
        if p.assumptions:
            note += " Assumes: " + "; ".join(p.assumptions) + "."
        cmd = "/opt/venv/bin/python mc/run.py %s --tier " % k
        checks.append(dict(property=k, quick_cmd=cmd + "quick", thorough_cmd=cmd + "thorough", technique="model checking: " + p.technique,
                           level="model_checking", level_note=note))
    m = dict(version=1, setup_cmd="/opt/venv/bin/python mc/run.py --setup", checks=checks, not_applicable=[],
             notes="Every check compiles the kernels and copies the sources of /repo's working tree into a scratch folder it removes; no hooks in /repo are needed.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")


main()


def design():
    props = run.load_props()
    out = [open(os.path.join(HERE, "tools/design_head.md")).read(), "## Properties\n"]
    for k in sorted(TABLE):
        p, t = props[k], TABLE[k]
        b = p.bound if isinstance(p.bound, dict) else {"quick": p.bound, "thorough": p.bound}
        out.append("### %s %s\n" % (k, p.title))
        out.append("*Specified:* %s\n" % t["statement"])
        out.append("*Decided by:* %s.  %s\n" % (p.technique, p.level_note))
        out.append("*Bounds:* quick - %s; thorough - %s.\n" % (b["quick"], b["thorough"]))
        if p.assumptions:
            out.append("*Assumes:* %s.\n" % "; ".join(p.assumptions))
        out.append("*Cost:* %s.  *Beyond the tests:* %s\n" % (COST.get(k, "seconds"), t["why_tests_cant"]))
    tail = open(os.path.join(HERE, "tools/design_tail.md")).read()
    rows = []
    sd = os.path.join(HERE, "seeded")
    caught = {}
    cf = os.path.join(HERE, "tools/caught.json")
    if os.path.exists(cf):
        caught = json.load(open(cf))
    for n in sorted(os.listdir(sd)):
        mf = os.path.join(sd, n, "meta.json")
        if os.path.exists(mf):
            m = json.load(open(mf))
            rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"].replace("|", "/"), ", ".join(caught.get(n, ["?"]))))
    tab = "| seeded | breaks | what | caught by (quick tier) |\n|---|---|---|---|\n" + "\n".join(rows) if rows else "none yet"
    out.append(tail.replace("SEEDTABLE", tab))
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))


cf = os.path.join(HERE, "tools/cost.json")
COST = json.load(open(cf)) if os.path.exists(cf) else {}
design()
