"""Writes properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))

O = "attitude/orientation/"
prop("C01", "A plane fit is the total-least-squares plane of its points",
 "For every set of at least three 3-D points, the fitted plane passes through the mean of the points and no other plane has a smaller sum of squared perpendicular distances; its three axes are orthonormal rows in order of decreasing scatter, the singular values, eigenvalues (sample variances, n-1) and explained variance (share of the first two eigenvalues) are those of the data along these axes, and the normal is the third axis as an upward unit vector. The residuals are the components of the centred points along the normal, the rotated points are their coordinates along the axes, and U, the singular values and V reproduce the centred points. Fewer than three points are refused with a ValueError.",
 ["inputs"], "every point set, of any size, position, scale, numeric type and degree of degeneracy",
 "Tests fit a handful of random or fixture point sets and compare two code paths with each other; none asks whether a better plane exists, and no degenerate, tiny, huge, offset or integer input is tried.",
 [O+"pca.py", "attitude/coordinates/__init__.py"],
 [("singular value decomposition of centred data", O+"pca.py:__run_svd"), ("upward normal, derived parameters", O+"pca.py:__compute_derived_parameters"), ("residuals/rotated/U/eigenvalues", O+"pca.py")],
 observe=["PCAOrientation(...).axes/.normal/.singular_values/.eigenvalues/.residuals()/.rotated()/.U"])

prop("C02", "Strike, dip and rake describe the fitted plane by the right-hand rule",
 "For every fitted plane, strike is an azimuth in degrees in [0,360] and dip an angle in [0,90] such that the horizontal line at azimuth strike lies in the plane and the plane descends by dip towards the azimuth strike+90, whichever way the axes of the fit happen to point; the dip direction is strike+90 with the same dip. Rake is the angle in [0,180] between the plane's line of steepest ascent and the first axis of the fit, and every one of these is finite also for horizontal and vertical planes.",
 ["inputs"], "every orientation of the plane (all azimuths and dips, including exactly 0 and 90) and every direction of the axes",
 "The cardinal-direction tests are nose generators which no longer run; the remaining ones use one random plane each. The quadrant logic depends on the sign the SVD happens to return.",
 [O+"pca.py", O+"base.py"],
 [("quadrant handling", O+"pca.py:strike_dip"), ("rake", O+"pca.py:_rake"), ("dip_direction", O+"base.py")],
 observe=["strike_dip()", "strike_dip_rake()", "dip_direction()", "rake()"])

prop("C03", "Fits move with their data: translation, rotation, scale, order",
 "Translating all points of a fit leaves orientation, error statistics and eigenvalues unchanged and translates its centre; turning them about the vertical by any angle turns the strike by that angle and changes nothing else; multiplying all lengths by k multiplies singular values by k and eigenvalues by k squared and leaves every angle unchanged; mirroring and turning upside down act correspondingly. Neither the order of the points nor their numeric type or memory layout matters, and repeating every point the same number of times leaves orientation unchanged.",
 ["inputs", "histories"], "every point set and every sequence of such transformations",
 "Metamorphic relations over all transformations; tests check one rotation of one data set.",
 [O+"pca.py", "attitude/error/axes.py"],
 [("centring", "attitude/coordinates/__init__.py:centered"), ("SVD", O+"pca.py:__run_svd"), ("error statistics", "attitude/error/axes.py")])

prop("C04", "Error axes and angular errors follow the stated statistics",
 "For every fit, number of points, confidence level and option, the noise-based, sampling-based, Francq and Babamoradi error axes equal the documented formulas of the eigenvalues, sample size and Fisher (or chi-squared) quantile, the default being noise-based errors at 95%; the angular errors are the arctangents of the square-root ratios of the normal error axis to the two in-plane axes, in degrees unless asked otherwise, returned as (minimum, maximum). The conversions between plane and normal-vector error axes are inverse to each other.",
 ["inputs", "configurations"], "every sample size, eigenvalue ratio, confidence level, degrees of freedom and option combination",
 "Tests compare the code with itself at one confidence level on one fixture; keyword plumbing between the statistics functions is never exercised.",
 ["attitude/error/axes.py", "attitude/error/__init__.py", O+"pca.py"],
 [("statistical_axes and keyword plumbing", "attitude/error/axes.py"), ("angular errors", "attitude/error/axes.py:angular_errors"), ("method default", O+"pca.py:__init__")],
 observe=["fit.hyperbolic_axes", "fit.angular_errors()", "attitude.error.axes.*_axes(fit, ...)"])

prop("C05", "Reading, plotting or serialising a fit never changes it",
 "Whatever sequence of accessors, error computations, plots and serialisations is applied to a fit, in whatever order and however often, every later answer, and the fit's identifier, is the same as on a freshly made fit of the same data. The arrays a caller passes in are never modified, and two fits never influence one another.",
 ["histories"], "every sequence of read-only operations on fits of every kind",
 "Tests call each accessor once on a fresh object; in-place numpy arithmetic on shared arrays only shows after a particular earlier call.",
 [O+"pca.py", O+"base.py", "attitude/stereonet.py", "attitude/display/polar.py", "attitude/display/pca_aligned.py", "attitude/error/axes.py"],
 [("lazily computed U", O+"pca.py:U"), ("copies before in-place arithmetic", "attitude/error/axes.py:apply_error_scaling; attitude/stereonet.py"), ("content hash", O+"base.py:hash")],
 state=[("axes, singular_values, arr, array, mean, _U", "mutable arrays held by the fit", O+"pca.py")])

prop("C06", "Grouping keeps membership consistent: one group per measurement",
 "After any sequence of grouping and disabling calls, every measurement of the returned collection belongs to at most one group, and a measurement names a group as its own exactly when that group lists it as a member; existing groups survive, and ungrouped measurements belong to none. By default grouping works on copies and the caller's collection and measurements stay as they were. Unknown identifiers raise a KeyError, and measurements that are already grouped, or groups themselves, are refused with a grouping error that leaves memberships unchanged.",
 ["histories", "inputs"], "every sequence of create-group and disable calls over a collection, with valid, unknown, repeated and already-grouped identifiers, with and without copying",
 "One test groups one pair once.",
 [O+"grouped.py"],
 [("create_groups", O+"grouped.py"), ("disable_orientations", O+"grouped.py"), ("GroupedOrientation.__init__", O+"grouped.py")],
 state=[("member_of / members", "two-sided membership relation", O+"grouped.py"), ("disabled", "display flag", O+"pca.py")])

prop("C07", "A group fit pools the points of its members",
 "The fit of a group is the plane fit of the pooled points of all its members, each member first centred on its own mean, or pooled as they are when the members are declared to be on the same plane; its centre is the mean of all original points and its point count their total. The order in which members are listed does not affect orientation or errors.",
 ["inputs", "configurations"], "every collection of member point sets, offsets between them and grouping mode",
 "One test checks one fixture of two parts.",
 [O+"grouped.py"],
 [("stacking of centred arrays", O+"grouped.py:__init__"), ("mean over original points", O+"grouped.py:__init__")])

prop("C08", "A fit's mapping is complete, faithful JSON",
 "The mapping of every fitted, grouped or reconstructed plane survives JSON unchanged and contains, in degrees, exactly the plane's strike, dip, rake and minimum and maximum angular errors, its axes, error axes, disabled flag and identifier; fits add their centre and centred points, groups the identifiers of their members in order (and no points unless given), members the identifier of their group. Values supplied by the caller are added to the mapping and override computed ones, except the recorded memberships, and neither the plane nor the supplied values are altered.",
 ["inputs", "configurations"], "every kind of plane, membership state and set of caller-supplied values",
 "No test looks at the mapping beyond one identifier.",
 [O+"base.py", O+"pca.py", O+"grouped.py", "attitude/error/__init__.py"],
 [("to_mapping chain", O+"base.py; "+O+"pca.py; "+O+"grouped.py"), ("pca_to_mapping", "attitude/error/__init__.py")])

prop("C09", "A fit restored from saved axes equals the original fit",
 "Re-creating a fit from its points and its saved principal axes gives a fit with the same axes, singular values, normal, strike, dip, rake, residuals, error axes, angular errors and left singular vectors as the original, for every full-rank point set, also after the saved axes went through a text format; saving the restored fit gives the same axes again. The restored fit does not modify the axes it was given.",
 ["inputs", "histories"], "every full-rank point set and every number of save/restore cycles",
 "One test restores one random fit and compares two attributes.",
 [O+"pca.py", O+"base.py"],
 [("loading of saved axes", O+"pca.py:__load_saved_fit"), ("principal_axes", O+"base.py"), ("lazy U", O+"pca.py:U")])

prop("C10", "A plane rebuilt from strike, dip, rake and errors encodes exactly them",
 "A plane reconstructed from strike, dip, rake and two angular errors has a unit upward normal that is the pole of that strike and dip, three orthonormal axes of which the third is the normal and the second the line in the plane at the given rake from strike; its error axes are the given normal error divided by the tangents of half the angular errors, followed by the normal error. It reports the numbers it was given, unchanged, and identifiers of planes that differ are different.",
 ["inputs"], "every strike, dip, rake, pair of errors and normal error",
 "One test checks one plane; signs and quadrants depend on the trigonometric conventions of another library.",
 [O+"reconstructed.py", "attitude/coordinates/rotations.py"],
 [("vector conversion of pole and rake", O+"reconstructed.py:__init__"), ("error axis lengths", O+"reconstructed.py:__init__")])

prop("C11", "Stereonet error curves trace the error cone of the plane",
 "For every set of axes (of either sign), error axes, level and layout, the girdle curves are closed and consist of the directions of the plane's error cone: the nominal curve lies in the plane, and upper and lower lie symmetrically on its two sides, upper away from the upward normal, at twice the level-scaled normal error; the normal-vector curve surrounds the upward normal and consists of the poles of the planes tangent to that cone. The one-point-at-a-time versions trace the same curves, the number of points is as requested, and the combined error coordinates contain exactly these curves in degrees for every requested level.",
 ["inputs", "configurations"], "every orientation, axis sign, error size, level, sheet, layout and point count",
 "Tests compare one girdle of one fixture with its iterative version.",
 ["attitude/stereonet.py", O+"pca.py"],
 [("plane_errors / normal_errors and hemisphere switch", "attitude/stereonet.py"), ("iterative versions", "attitude/stereonet.py"), ("error_coords", "attitude/stereonet.py")])

prop("C12", "Plotted uncertainty patches sit where the plane and its pole are",
 "On stereonet, polar and map displays, the patch drawn for the pole of an uncertain plane is a ring around the pole of that plane in that display's own coordinates, whose radius along the two error directions follows the stated angular errors; the girdle patch encloses the plane's great circle symmetrically on both sides. Style options are passed through to the drawn artist, and exactly one patch is added per call.",
 ["inputs", "configurations"], "every strike, dip, rake and error pair, for fits and reconstructed planes, on every display type",
 "One image comparison of one polar plot with a tolerance.",
 ["attitude/display/stereonet.py", "attitude/display/polar.py", "attitude/display/cartopy.py", O+"reconstructed.py"],
 [("girdle_error/pole_error/uncertain_*", "attitude/display/stereonet.py"), ("polar pole_error/pole", "attitude/display/polar.py"), ("cartopy features", "attitude/display/cartopy.py; "+O+"reconstructed.py:ErrorShell")])

prop("C13", "Conic and quadric operations agree with the point sets they represent",
 "For ellipses, ellipsoids and hyperboloids in two and three dimensions, a point lies in, on or outside a translated, affinely transformed or sliced conic exactly when the correspondingly moved point lies in, on or outside the original; the centre moves with the conic. Pole and polar plane are inverse to each other, the polar of a surface point is its tangent plane, the dual of the dual is the original and contains exactly the tangent planes, and ellipses and hyperbolas are classified as such; planes report their unit normal and nearest point.",
 ["inputs", "histories"], "every conic, every sequence of transformations and every point, plane and viewpoint",
 "Tests check a few hand-picked ellipses and one translation.",
 ["attitude/geom/conics.py", "attitude/geom/util.py"],
 [("Conic", "attitude/geom/conics.py"), ("Plane", "attitude/geom/util.py")])

prop("C14", "Tangent cones and major axes of ellipsoids are exact",
 "The major axes of an ellipse or ellipsoid of any size, orientation and position are mutually perpendicular, end on its surface and are extremal; its tangency cut from any viewpoint outside consists of surface points whose tangent planes contain the viewpoint, and the half angles it subtends are the arctangents of that cut's semi-axes over the distance to its centre. The error ellipse of a fit is the cone of directions from the origin tangent to the fit's error ellipsoid, and its error hyperboloid has the same semi-axes, along the fit's own axes when rotated.",
 ["inputs"], "every ellipsoid, viewpoint and fit",
 "Tests check unit spheres and one offset ellipse.",
 ["attitude/geom/conics.py", O+"pca.py"],
 [("major_axes, projection, slice, angle_subtended", "attitude/geom/conics.py"), ("_ellipse, as_conic, error_ellipse", O+"pca.py")])

prop("C15", "Hyperbolic error bands follow the error hyperboloid in every view",
 "The error band drawn along any cross-section is the slice of the error hyperboloid by the viewing plane: at every position along the nominal line its two edges lie symmetrically at the half width given by the slice's semi-axes along the two given viewing axes, rotated by the apparent dip and shifted by the given means, with the far edge listed in reverse so that the polygon closes without crossing. After any sequence of plot and update calls the drawn polygon is the band of the last data; the parametric ellipse and hyperbola satisfy their equations; the aligned and comparison figures show these bands, every data point and the nominal line.",
 ["inputs", "histories"], "every set of error axes, viewing plane, transformation, offset and sequence of plot/update calls",
 "Tests compare two code paths for one fixture; the plotted polygon is never read back.",
 ["attitude/display/hyperbola.py", "attitude/display/parametric.py", "attitude/display/pca_aligned.py", "attitude/display/error_comparison.py", "attitude/display/plot/cov_types/regressions.py"],
 [("hyperbolic_errors, HyperbolicErrors", "attitude/display/hyperbola.py"), ("parametric curves", "attitude/display/parametric.py"), ("figures", "attitude/display/pca_aligned.py; attitude/display/error_comparison.py")])

prop("C16", "Linear regression solves the normal equations, in any access order",
 "For every non-degenerate point set, given as n rows of three or as three long rows, the regression coefficients minimise the squared vertical residuals about the mean, predictions plus residuals reproduce the elevations, the covariance is the residual sum of squares times the inverse normal matrix (zero for exactly three points) and the standard errors are the square roots of its diagonal, in whatever order they are asked for. The linear orientation derived from it has the plane's true slope and down-dip azimuth, agrees with the principal-component fit on exact planes, and its errors turn with the data.",
 ["inputs", "histories"], "every point set, shape of input and order of accessor calls",
 "The regression tests call properties as functions and fail; one shape check remains.",
 [O+"linear/regression.py", O+"linear/__init__.py", O+"base.py"],
 [("lazy coefficients and covariance", O+"linear/regression.py"), ("azimuth/slope", O+"linear/__init__.py"), ("rotated covariance", O+"base.py")],
 state=[("cached coefficients / covariance / inverse normal matrix", "computed on first access", O+"linear/regression.py")])

prop("C17", "Coordinate, vector and rotation helpers are exact and mutually inverse",
 "Spherical and Cartesian conversions, the conversions to and from stereonet coordinates, and longitude/latitude conversions are inverse to each other for scalars and arrays alike; the rotation between two non-parallel vectors is a proper rotation about their common perpendicular that carries the first direction onto the second. Angles between vectors are symmetric, scale-invariant and within 0 to 180 degrees also for parallel and opposite vectors; perpendicular vectors are unit and perpendicular; affine transformations compose in the order given, and the angle between two fits is that between their normals.",
 ["inputs"], "every vector, pair of vectors, direction and list of transformations",
 "The only test compares truth values of arrays.",
 ["attitude/coordinates/__init__.py", "attitude/coordinates/rotations.py", "attitude/geom/util.py", "attitude/geom/transform.py", "attitude/geom/__init__.py", "attitude/stereonet.py", O+"pca.py"],
 [("conversions", "attitude/coordinates/"), ("vector helpers", "attitude/geom/util.py"), ("compose_affine etc.", O+"pca.py")])

prop("C18", "Area extraction returns exactly the valid pixels inside the polygon",
 "Extracting a polygon from an elevation raster returns one row per pixel whose centre is inside the polygon and whose elevation is valid, with the map coordinates of the pixel centre and the elevation of the requested band, for every raster transform and polygon including ones with holes or touching the edges; pixels without data never appear. The minimal window around a mask contains all its set pixels and no empty border row or column, with the right offset, and cleaning coordinates removes exactly the rows with an undefined coordinate, keeping order.",
 ["inputs"], "every raster size, mask, polygon, affine transform, band and pattern of missing data",
 "There are no tests of the raster helpers.",
 ["attitude/helpers/dem.py"],
 [("offset_mask, extract_area, clean_coordinates, extract_shape", "attitude/helpers/dem.py")])

prop("C19", "Line extraction interpolates the raster at every vertex",
 "Extracting a line, point or multi-part line from an elevation raster keeps every vertex at its map position and in order and gives it the bilinear interpolation between the four surrounding pixel centres (the nearest edge value beyond the outermost centres), independent of where the line lies in the raster, of the raster's number type and of the window read; a planar raster is reproduced exactly. Missing data next to a vertex makes that vertex, and only such vertices, undefined, and shape extraction drops them.",
 ["inputs"], "every line position, raster, affine transform and pattern of missing data",
 "There are no tests of the raster helpers.",
 ["attitude/helpers/dem.py", "attitude/helpers/interpolation.py"],
 [("window arithmetic", "attitude/helpers/dem.py:extract_line"), ("pixel-centre alignment", "attitude/helpers/interpolation.py")])

prop("C20", "Interactive plots hand the browser exactly the attitudes given",
 "Displaying attitudes interactively emits one page fragment whose script, when a browser parses and runs it, calls the viewer once with the fragment's own element and exactly the list of mappings of the attitudes given, in order, for every single attitude or list and every JSON value a user attaches, including text that looks like markup, script ends or template placeholders. Every fragment uses a fresh element id, and the viewer library is sent to the notebook once per session, and again on the next call if sending it failed.",
 ["inputs", "histories", "fault_sequences"], "every list of attitudes and attached values, every sequence of calls and every failure of the display",
 "There is no test of the notebook integration.",
 ["attitude/display/nbextension.py"],
 [("template substitution", "attitude/display/nbextension.py:plot_interactive"), ("initialised flag", "attitude/display/nbextension.py:init_notebook_mode")],
 state=[("initialised flag", "library already sent", "attitude/display/nbextension.py")])

prop("C21", "Axis weights rescale the data and nothing else",
 "A fit with weights has the axes of the plane fit of the data divided by the weights, and unit weights, however given, change nothing; equal weights on all axes leave orientation, singular values and errors unchanged. The weights and points passed in are never modified.",
 ["inputs", "configurations"], "every point set and positive weight vector",
 "No test passes weights.",
 [O+"pca.py"],
 [("weights", O+"pca.py:__run_svd")])

prop("C22", "The browser draws the same error cones that the Python statistics state",
 "For every set of error axes and axes of a plane and every layout and hemisphere, each curve computed for the browser has the requested number of points and goes around once without turning back; the nominal girdle lies in the plane, the upper (away from the upward normal when the upper hemisphere is shown) and lower girdles lie symmetrically on both sides at the angular errors the mapping states along the two in-plane axes, and the normal curve consists of the poles of the planes tangent to that cone around the normal, widened by the level. The combined result holds these three curves in degrees, and computing curves never changes the axes passed in.",
 ["inputs", "configurations"], "every error axis triple, orientation, sheet, layout, hemisphere and point count",
 "The front-end tests need a browser tool chain and are not run.",
 ["frontend/packages/attitude/src/math.ts"],
 [("planeErrors, normalErrors, combinedErrors, cart2sph", "frontend/packages/attitude/src/math.ts")])

prop("C23", "Browser error surfaces cover the plane and its poles, and nothing else",
 "The error surface drawn in the browser for a plane is a band with the upper and lower girdle as rings that contains the plane and every direction within its error and none beyond it, neither pole included; the error ellipse at each requested level consists of two opposite caps, the first around the upward pole, that contain exactly the poles of planes within that multiple of the error; both state their own area on the sphere and carry the plane's data. This holds in every layout and hemisphere, whichever way the axes point, and drawing one plane never alters its data or the drawing of another. Principal axes split into singular values and unit axes and recombine exactly, and the centres computed for groups of planes are the point-weighted mean and the middle of the extremes.",
 ["inputs", "histories", "configurations"], "every orientation, sign of the axes, error size, level, layout and sequence of drawings",
 "The front-end tests need a browser tool chain and are not run; they check one random plane.",
 ["frontend/packages/attitude/src/functions.ts", "frontend/packages/attitude/src/math.ts", "frontend/packages/attitude/src/util.ts"],
 [("errorSurface, errorEllipse, plane", "frontend/packages/attitude/src/functions.ts"), ("convolveAxes, deconvolveAxes", "frontend/packages/attitude/src/math.ts"), ("computeCentroid*, cloneOptions", "frontend/packages/attitude/src/util.ts")])

F = "frontend/packages/attitude/src/"
prop("C24", "Browser side views place planes, traces and error bands where they are",
 "In a side view from any azimuth, a plane or group reports its true dip, dip direction and apparent dip; digitised points are projected onto the vertical plane of view without distortion, relative to the group's own axes if such are set; and every plane is drawn at the scaled position of its offset, inclined at the slope its trace has on screen whatever the vertical exaggeration. An error band is symmetrical about that trace, has the half-width of the normal error at its centre, opens at the ratio of the normal error to the in-plane error in the direction of view, and reaches at least across the width asked for, as does its nominal line when one is requested; drawing it again after the view has turned gives what a first drawing gives. Mean and centred points left out of the data are computed from the points, and more certain planes are never drawn fainter.",
 ["inputs", "histories", "configurations"], "every attitude, sign of the axes, viewing azimuth, pair of scales, error size and sequence of redrawings",
 "The front-end tests need a browser tool chain and are not run; none covers the side view.",
 [F+"hyperbola.ts", F+"stereonet/index.ts"],
 [("PlaneData, apparentDip", F+"hyperbola.ts"), ("hyperbolicErrors", F+"hyperbola.ts"), ("digitizedLine, createTransform", F+"hyperbola.ts"), ("opacityByCertainty", F+"stereonet/index.ts")])

prop("C25", "Plotted error ellipses are those of the fit, one for each level",
 "Plotting the errors of a fit (strike_dip, normal, trend_plunge, and the summary figure of levels 1, 2 and 3) adds exactly one filled polygon for each requested level, in the order given, to the axes named or else to the current ones; its vertices are the directions of the fit's own error ellipse at that level, as positions on the stereonet or as degrees of trend and dip; opacity is the default, the one number for all levels, or the one given for that level, and style options are passed on. Nothing drawn before moves, and neither the fit nor the caller's lists change. The covariance ellipse of regression coefficients lies at the given number of standard errors around the coefficients and is traced once.",
 ["inputs", "histories", "configurations"], "every fit, list of levels in any order, form of opacity, style and sequence of plots",
 "Tests draw one fit at level 1 and look at nothing.",
 ["attitude/display/plot/__init__.py", "attitude/error/ellipse.py", O+"base.py"],
 [("strike_dip, normal, trend_plunge, error_ellipse", "attitude/display/plot/__init__.py"), ("ellipse", "attitude/error/ellipse.py"), ("error_ellipse of regressions", O+"base.py")])

prop("C26", "A browser stereonet keeps all it shows in step with its projection",
 "Whatever sequence of settings (size, margin, clip angle, centre, graticule), drawings of planes and poles, rotations, drags and refreshes a stereonet goes through, every path it shows is the projection of its own data as soon as it is drawn, turned or refreshed; size, scale and clip angle of the projection depend on the present settings only, and every setting can be read back and returns the stereonet. Each plane is drawn once with its error surface and nominal girdle (or its poles) in the colour asked for, where it lies in space, without touching what was drawn before; work handed over early is done once, in order, when the stereonet is shown, and drawing data before that is refused. A drag turns only the stereonet it began on, by a third of a degree for each pixel, never beyond the poles, and only until the button is released; listeners hear of each turn. Labels for the compass directions, up and down stay at their directions and are hidden on the far side. Labels on the axes of a clipped net (N, E, S, W at the rim, dips along a radius, exactly those asked for) stand where the projection puts what they name, and however often they are drawn with the same options, which are left as they are. Opacity by certainty never increases with the angular error and runs between its limits over the domain set.",
 ["histories", "inputs", "configurations"], "every sequence of settings, drawings, rotations and mouse events, on one or two stereonets of a page",
 "The front-end tests need a browser tool chain and are not run; none touches the stereonet component.",
 [F+"stereonet/index.ts", F+"stereonet/labels.ts", F+"stereonet/interaction.ts", F+"stereonet/vertical.ts", F+"stereonet/horizontal.ts"],
 [("vertical and horizontal axes", F+"stereonet/vertical.ts"), ("Stereonet: settings, planes, ellipses, rotate, call", F+"stereonet/index.ts"), ("globalLabels", F+"stereonet/labels.ts"), ("dragging", F+"stereonet/interaction.ts"), ("opacityByCertainty", F+"stereonet/index.ts")],
 state=[("projection, size, margin, clip angle, element, deferred calls", "closure of a stereonet", F+"stereonet/index.ts"), ("start of a drag", "closure of the interaction", F+"stereonet/interaction.ts")])

N = "frontend/packages/notebook-ui/src/"
prop("C27", "The notebook interface shows one consistent state",
 "After any sequence of actions in the notebook's interface (selecting and hovering in the list or on the stereonet, clearing, showing only the selection, showing or hiding groups, planes and poles, turning the net, new data), list, information panel, buttons and stereonet show the same state: the list holds every attitude in order (groups unless hidden) and marks exactly what is selected and what is hovered, the latter in its own colour; selecting twice restores the selection; clipboard text holds the selected ids in order of selection. The stereonet draws each attitude shown (all, or exactly the selection) once, in its colour and at its place, as planes, as poles, both or neither, without error surface for planes more uncertain than 45 degrees; and on top once more what is hovered. Hovering a member hovers its group if that is there, and a group all of its members that are there; the panel then states the id, strike, dip and errors of the first of them, and how many measurements a group has. Attitudes handed over are never changed.",
 ["histories", "inputs", "configurations"], "every set of attitudes and groups, complete or not, and every sequence of actions",
 "The front-end tests need a browser tool chain and are not run; none touches the interface.",
 [N+"index.ts", N+"components/stereonet.ts", N+"components/list.ts", N+"components/data-panel.ts"],
 [("selection, hovering, zoom", N+"index.ts"), ("updatePlanes, updatePoles, updateHovered", N+"components/stereonet.ts"), ("list and clipboard", N+"components/list.ts"), ("information panel", N+"components/data-panel.ts")],
 state=[("selection, hovered, zoomedToSelection, showGroups", "state of the interface", N+"index.ts"), ("drawPlanes, drawPoles, center", "state of the stereonet", N+"components/stereonet.ts")])

W = "frontend/packages/webapp/src/"
prop("C28", "The web application plots exactly the complete rows of its sheet",
 "After any sequence of edits, pastes, clearings, added rows, resets, changes of tab or clip angle and reloads, the sheet holds exactly what was entered last in each cell, except that maximum and minimum error change places where the minimum is the larger; the plot shows one pole with its errors for each row whose five numbers can be read, with these numbers and the row's colour if that is one, around a pole inclined by the row's dip and as wide as its maximum and minimum error, and nothing for other rows. Cells are marked as empty, valid or invalid by the same rule. Adding rows keeps all there are and fills up to a multiple of ten, a reset restores the example, a reload restores the sheet; and an earlier state of the sheet is never altered. The clipped net has the clip angle that was set last, also after a reload, looks straight down and never shows a more certain pole fainter than a less certain one.",
 ["histories", "inputs", "crash_points"], "every sequence of edits and other actions, every cell content, and a reload at any point",
 "The front-end tests need a browser tool chain and are not run; none touches the web application.",
 [W+"app.ts", W+"sheet.ts", "frontend/packages/plots/src/vertical.ts", N+"components/stereonet.ts"],
 [("constructOrientation, addEmptyRows, App", W+"app.ts"), ("DataArea, fields, validation", W+"sheet.ts"), ("VerticalClippedStereonet", "frontend/packages/plots/src/vertical.ts")],
 state=[("orientation-data, clipAngle", "kept in the browser's storage", W+"app.ts")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
