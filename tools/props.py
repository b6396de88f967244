"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Z = "zoidberg/"
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), note=""):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": [Z + f for f in files],
                           "mechanism": [{"name": n, "where": Z + w} for n, w in mech],
                           "state": [{"name": n, "meaning": m, "where": Z + w} for n, m, w in state],
                           "observe_at": list(observe), "hook_needed": None}, note=note))


I, H, C = "inputs", "histories", "configurations"

p("C01", "Maps follow the field lines to every parallel slice",
  "For every grid, magnetic field, boundary, tracer and number of parallel slices, the maps give for every cell and every offset the position (R, Z) at which the field line through the cell centre reaches that slice, together with the fractional cell index of that position on the poloidal grid of the slice reached. "
  "With a periodic parallel direction the slices wrap around any number of times; otherwise, and wherever the end point is outside of the field's boundary (tested at the end point's own toroidal position) or of the grid, the index marks a radial boundary. "
  "The forward and backward maps have the documented names for each offset, and the parallel field given with them is the one at the cell centres. The requested tolerance is passed on to the tracer.",
  [I, C], "all combinations of the listed grids (rectangular; curvilinear, different in each slice), fields, sizes, numbers of y points, periodicity, numbers of slices, boundaries and tracers",
  "The tests build maps for one slab and one rotating ellipse with one slice and check a few shapes and values; they never use several slices, non-uniform poloidal grids, more than one turn or boundaries that depend on y.",
  ["zoidberg.py", "grid.py", "poloidal_grid.py", "boundary.py"],
  [("make_maps: tracing to every offset and findIndex on the slice reached", "zoidberg.py:57"), ("Grid.getPoloidalGrid: wrap around in y", "grid.py:79"), ("outside() of the field's boundary sets the index to a boundary value", "boundary.py:6")],
  observe=["dictionary returned by make_maps"])
p("C02", "Sub-cell samples are the end points of the quadrature points of each cell",
  "If several field lines per cell are requested, they start at the Gauss-Legendre points of the cell, their weights are the normalised quadrature weights and sum to one, and for every offset their maps give the index where each of these field lines ends, with boundaries treated as for the cell centre. "
  "All quantities for the cell centre are the same as without sub-cell sampling.",
  [I, C], "all combinations of grids, fields, sizes, periodicity, slices, boundaries and 2-5 samples per dimension within the bounds",
  "One test only checks array shapes and that the weights sum to one, for one grid; three defects (filled only for the last slice, wrong starting points, wrong at the ends in z) were present while it passed.",
  ["zoidberg.py"], [("make_maps with samples_per_dim", "zoidberg.py:57")], observe=["*_xt_primes, *_zt_primes, subcell_weights"])
p("C03", "Every cell and leg of the parallel operators is numbered exactly once",
  "For every combination of field line ends inside, beyond the inner or beyond the outer radial boundary, each evolving cell has a unique cell number (evolving cells first, then the inner and outer guard cells, then boundary cells), each cell has an interior leg exactly if one of its samples ends inside and a boundary leg exactly if one ends in a boundary, and all legs have a unique row; -1 marks what a cell does not have. "
  "The weights of the legs of a cell sum to one and are the quadrature weights of the samples that belong to the leg; the sparse matrices are well-formed, with each column at most once in a row. "
  "Weights of samples that are missing, not normalised or of the wrong number are refused.",
  [I, C], "all assignments of in / low / high / exactly at the edge to all evolving cells, both directions and 1-4 samples, on all small grids within the bounds and in regular patterns on larger ones with up to 25 samples; maps with and without sub-cell arrays",
  "Tests in test_weights use a handful of hand-made maps of one or two cells.",
  ["weights.py"], [("assign_cell_space_numbers", "weights.py:165"), ("build_leg_space_metadata", "weights.py:314"), ("classify_leg_contributions", "weights.py:125")], observe=["dictionary returned by calculate_parallel_map_operators"])
p("C04", "Parallel operators interpolate to the mapped position",
  "Applying the operator of a direction to a field on the cells gives, for every interior leg, the weighted mean over its samples of the two-dimensional Catmull-Rom interpolation of the neighbouring slice in that direction at the mapped position, periodic in z for any number of turns, with the outermost evolving cell in place of radial boundary cells. "
  "At cell centres this is the value of that cell, constant fields are reproduced exactly and linear fields in x wherever the stencil is complete. "
  "Boundary legs read exactly their own boundary cell.",
  [I], "all positions on a lattice of 1/4-1/16 cells in x and z (z over 4 turns), all y, both directions, all grid sizes within the bounds; all combinations of 2 and 3 samples",
  "Tests sample one or two positions per function; the wrong weights for negative z indices passed them.",
  ["weights.py"], [("catmull_rom_weights", "weights.py:240"), ("shift_weights_out_of_x_boundaries", "weights.py:252"), ("accumulate_interior_stencil", "weights.py:425"), ("build_leg_destination_operator", "weights.py:483")], observe=["*_weights matrices"])
p("C05", "Partially blocked cells are split or replaced as a whole",
  "With partial boundaries every cell for which a sample ends in a boundary is marked in its map as hitting the boundary and keeps its interior and boundary parts as separate legs; without, every cell has exactly one leg of weight one per direction. "
  "In the result the sub-cell maps are removed, the operators belong to the modified maps, and all other entries are unchanged.",
  [I, C], "all assignments of in / low / high to the centre and 1-4 samples of up to two evolving cells in both directions, and guard cells",
  "Existing tests use one or two patterns.",
  ["weights.py"], [("modify_maps", "weights.py:597")], observe=["dictionary returned by modify_maps"])
p("C06", "Index and position on a poloidal grid are inverse to each other",
  "On every poloidal grid the coordinates at an integer index are the grid point, between grid points they follow the smooth (curvilinear) or linear (rectangular) map, curvilinear grids are periodic in z, the derivatives are those of the position, and looking up the index of a position gives back the index it came from. "
  "On curvilinear grids positions less than half a cell from the first or last surface, or beyond it, are marked as inner or outer boundary. "
  "The answer for a position does not depend on the shape of the input or on the other positions asked for together with it, and inputs are not modified.",
  [I, C], "index lattice of 1/4 over and beyond the grid, all sizes within bounds, 5 curvilinear geometries in both orientations, scalars, lists and arrays, all subsets of 7-8 points in both orders",
  "Tests check one rectangular and one curvilinear grid at a handful of points and no second derivatives.",
  ["poloidal_grid.py"], [("RectangularPoloidalGrid.getCoordinate/findIndex", "poloidal_grid.py:155"), ("StructuredPoloidalGrid: spline and Newton iteration", "poloidal_grid.py:352")], observe=["getCoordinate, findIndex"])
p("C07", "The metric is the metric of the mapping, and forms are inverse",
  "The metric tensor of the grid is the one given by the tangent vectors of the mapping from indices to positions, its co- and contravariant forms are inverse to each other and positive, and the spacing in y is half the distance between the neighbours, across the ends if periodic. "
  "Combined with a magnetic field, the parallel component is the squared length of the field line per y, and magnitude and pressure are those of the field at the cell.",
  [I, C], "rectangular, circular and sheared grids that differ in each slice, up to 6 y points with every pattern of 2-3 spacings, periodic or not, 6 fields",
  "Tests check one uniform rectangular grid; the spacing in y was wrong at the ends of every periodic non-uniform grid.",
  ["grid.py", "poloidal_grid.py", "zoidberg.py"], [("Grid.metric", "grid.py:134"), ("StructuredPoloidalGrid.metric", "poloidal_grid.py:477"), ("get_metric", "zoidberg.py:434")], observe=["Grid.metric(), get_metric()"])
p("C08", "Every y index finds the right poloidal grid and y position",
  "For every integer index in y, however far outside, a grid periodic in y gives the poloidal grid of the index modulo the number of slices and a y position that is continued by the period, and a grid that is not periodic gives no poloidal grid beyond its ends, at y = 0 or the length in y. "
  "A fractional index gives the y position linearly interpolated between its two neighbours, without a poloidal grid. "
  "Rectangular grids made by the helper have the documented size and spacing, and a wrong number of poloidal grids is refused.",
  [I, C], "up to 5 slices, every pattern of 2 spacings, all quarter indices within +-3 (5) turns, integer and float index types, one or many poloidal grids",
  "Tests use uniform spacing and indices within one turn.",
  ["grid.py"], [("Grid.getPoloidalGrid", "grid.py:79"), ("rectangular_grid", "grid.py:224")], observe=["getPoloidalGrid"])
p("C09", "The grid file contains maps, metric and slices consistently",
  "For all writer options the written file contains every map unchanged, the grid sizes, the metric under exactly one naming convention in 2D or 3D, the field's own quantities, and for every parallel slice the field, spacing and metric at the end points of the field lines on that slice. "
  "Each file gets its own identifier, nothing else is left in the directory, rewriting replaces the old content, and data that are not finite are refused.",
  [C, H], "all combinations of naming, 2D/3D, three ways of using the writer, rectangular and curvilinear grids, 4-6 fields, 1-3 slices, up to 4 y points, periodic or not",
  "No test reads back a written file's metric or slices.",
  ["zoidberg.py"], [("MapWriter", "zoidberg.py:479"), ("_write_par_metric", "zoidberg.py:663"), ("write_maps", "zoidberg.py:767")], observe=["the netCDF file"])
p("C10", "Results do not depend on earlier operations, and inputs stay unchanged",
  "Any sequence of operations on the same grid, field, tracer and map objects gives for every operation the result it gives on fresh objects, and leaves the caller's grids, maps, starting positions and fields unchanged. "
  "Creating or using one magnetic field never changes another.",
  [H], "all sequences of 2-4 of 14 operations (metric, maps, writing, DAGP, index, weights, tracing, Poincare), periodic or not, 2 kinds of grid; all sequences of up to 4 fields",
  "Each test makes its own objects, so that shared state between operations is never observed.",
  ["zoidberg.py", "grid.py", "field.py", "fieldtracer.py", "weights.py", "stencil_dagp_fv.py"], [("get_metric copies the metric", "zoidberg.py:434"), ("MagneticField.attributes per object", "field.py:21"), ("FieldTracerReversible copies its input", "fieldtracer.py:165")],
  state=[("_metric", "metric kept in the grid", "grid.py:134")], observe=["return values and a snapshot of all shared objects"])
p("C11", "Interrupted computation of diffusion coefficients can be resumed",
  "If adding the coefficients of the perpendicular operator to a grid file is interrupted at any point of the computation or of the file accesses and then run again, any number of times, the file ends up with the same content as after an uninterrupted run. "
  "Whatever an interruption leaves behind never makes a later run fail, skip a slice or use wrong values.",
  ["crash_points", H], "every single interruption, every pair and (1 slice) triple of interruptions at file accesses and between computations, 1-3 slices, all ways of continuing",
  "No test interrupts anything.",
  ["zoidberg.py", "stencil_dagp_fv.py"], [("MapWriter.add_dagp", "zoidberg.py:550")], state=[("dagp variables in the file", "slices already computed", "zoidberg.py:550")], observe=["the netCDF file after the last run"])
p("C12", "Perpendicular operator conserves and is exact for linear functions",
  "For every poloidal grid the coefficients of the finite volume operator give positive cell volumes equal to the integral over the cell (with the major radius, or without in a slab), fluxes through each face equal to the gradient of linear functions times the face area, and therefore exact divergence and zero for constants. "
  "Slices are independent of each other and the outermost rows carry no flux.",
  [I, C], "rectangular grids with 1-12 points in z, 4 curvilinear geometries, slab and toroidal, 1-4 slices in all combinations of two variants",
  "No test covers these coefficients.",
  ["stencil_dagp_fv.py"], [("doit", "stencil_dagp_fv.py:78")], observe=["dagp_fv_* arrays"])
p("C13", "The tracing cache is transparent, also after crashes",
  "For every sequence of calls, restarts and several processes sharing the cache, a caching tracer returns exactly what the underlying tracer returns for these arguments and options, and asks it at most once for repeated calls. "
  "A process killed at any byte of writing a file, a full disk or an interruption at any rename never makes a later call fail or return something else.",
  [H, "crash_points", "fault_sequences"], "all sequences of 2-4 calls of up to 29 that differ in value, shape, order, type or options, with and without restarts; killed or disk full after every number of bytes; all interleavings of two callers and of two processes at the file operations",
  "No test covers the cache.",
  ["fieldtracer.py"], [("CachingFieldTracer: key from all arguments", "fieldtracer.py:418"), ("write to a temporary file and rename", "fieldtracer.py:444")], state=[("cache files", "results by key", "fieldtracer.py:444")], observe=["follow_field_lines"])
p("C14", "Field line tracers reach the right point for every shape of input",
  "Every tracer returns, for any shape and type of starting positions and any increasing, decreasing or repeated set of y positions, an array whose first entries are the starting positions and whose others are where the field line reaches that y, independent of how many points are traced together, and does not modify its inputs. "
  "The reversible tracer solves its implicit equation at every point and gets back to its start, also within one call, tolerances are passed on, and inputs of inconsistent shape are refused.",
  [I, C], "2-4 tracers, 5 fields with known field lines, 6 shapes, 7 forms of the start, 6 sets of y, numbers of points around multiples of the internal chunk size, all pairs of shapes; all sequences of calls for the FusionSC tracer with a stand-in",
  "Tests trace a slab, where field lines are straight, with fewer points than a chunk.",
  ["fieldtracer.py", "field.py"], [("FieldTracer.follow_field_lines", "fieldtracer.py:31"), ("FieldTracerReversible", "fieldtracer.py:134"), ("FusionSCTracer", "fieldtracer.py:942")], observe=["follow_field_lines"])
p("C15", "Web service tracing gives complete results despite failures",
  "For every number of starting positions, splitting into requests and sequence of failing or unanswered requests within the allowed number of attempts, the result contains for each starting position its own field line at the requested y positions in the right order and direction, and options given to the call take precedence over those of the tracer and these over the defaults. "
  "If the attempts are exhausted an error is raised instead of returning incomplete results.",
  ["fault_sequences", C], "1-9 points in requests of 1-6, every assignment of success / error / timeout to every attempt, 1-5 attempts",
  "Tests need the web service and are skipped.",
  ["fieldtracer.py"], [("FieldTracerWeb.follow_field_lines: chunks and retries", "fieldtracer.py:536")], observe=["follow_field_lines"])
p("C16", "Boundaries classify every point correctly",
  "A rectangular boundary reports exactly the points beyond its sides as outside, and a polygonal boundary exactly the points that are not enclosed by the polygon, for simple polygons in either orientation, starting at any vertex, with or without the first point repeated, and for points level with vertices or edges. "
  "The result has the shape of the input.",
  [I], "all ordered triangles on a 4x4 lattice, all simple quadrilaterals to hexagons on a 3x3 (4x4) lattice, all points at half (third) of the lattice spacing in exact arithmetic, in several coordinate systems",
  "Tests use one rectangle and one polygon with a few points that avoid the heights of the vertices.",
  ["boundary.py"], [("PolygonBoundaryXZ.outside: crossing count", "boundary.py:80"), ("RectangularBoundaryXZ.outside", "boundary.py:42")], observe=["outside()"])
p("C17", "Periodic lines pass through their points and measure distance right",
  "A line goes through the points it was made from at equidistant angles, is periodic, oriented as requested, and its derivatives are derivatives of its position. "
  "Distances along it increase from zero to the length of the line, equal spacing gives points with equal distance (or weighted distance), the closest point is the closest of the line, and lines do not share data with their inputs.",
  [I, C], "5 shapes, all starts, both orientations, spline orders 1-5, numbers of points and samples within bounds, several weights",
  "Tests use a circle.",
  ["rzline.py", "spectralline.py"], [("RZline", "rzline.py:23"), ("SpectralLine", "spectralline.py:27")], observe=["Rvalue, Zvalue, position, positionPolygon, distance, equallySpaced, closestPoint"])
p("C18", "Lines from unordered points do not depend on the order of the points",
  "Making a line from unordered points gives for every order of the points a line through exactly these points (all of them, each once), in the order along the line they were taken from, oriented as requested and with the requested spline. "
  "Inputs are not modified.",
  [I], "all permutations of 4-7 points on 5 lines and 5 algorithms; all rotations, strides and transpositions of up to 24 points",
  "Tests use one order of one set of points.",
  ["rzline.py"], [("line_from_points_poly", "rzline.py:400"), ("line_from_points_two_opt", "rzline.py:492"), ("line_from_points_convex_hull", "rzline.py:540"), ("line_from_points", "rzline.py:578")], observe=["R and Z of the returned line"])
p("C19", "Finite differences and line lengths have their order everywhere",
  "The fourth order difference is exact for polynomials up to degree four at every point including the ends, the second order difference up to degree two between the ends and one at the ends, and with periodic boundary both are the central difference across it, for every axis, number of dimensions and number type. "
  "The length of a field line is the arc length, also for unevenly spaced positions and arrays of lines.",
  [I], "3-12 points, 1-3 dimensions, every axis, every unit vector (and pair), all monomials; 5 lines, 6 sets of y, arrays of lines",
  "Tests differentiate one sine in one or two dimensions of floats.",
  ["diff.py"], [("c2", "diff.py:4"), ("c4", "diff.py:33"), ("field_line_length", "diff.py:100")], observe=["return values"])
p("C20", "Smoothing rounds corners, wherever the arrays start",
  "Smoothing a closed line keeps the number of points, moves only points close to corners, does not leave corners sharper than before, stays close to the original line, and finds the same corners and result wherever on the line the arrays start. "
  "Lines without corners are left unchanged and inputs are not modified.",
  [I, C], "6-8 shapes, every start of the arrays, both orientations, several ranges and thresholds",
  "There is no test; corners close to the ends of the arrays failed.",
  ["smooth.py"], [("smooth", "smooth.py:292"), ("find_outliers", "smooth.py:5"), ("rollup", "smooth.py:51")], observe=["smooth, find_outliers"])
p("C21", "Magnetic fields are divergence free and consistent with their parameters",
  "The analytic and file based fields are what their documentation says: components match their formulas for all parameters, the field is divergence free (and curl free where it is a vacuum field), the pitch is that requested, and the major radius is the one of the geometry. "
  "A field from an equilibrium file has the poloidal components given by the flux in the file, also if the numbers of points in R and Z differ, the toroidal component and pressure from the profiles, and the boundary from the limiter. "
  "The direction of the field used for tracing is the ratio of components times the major radius, and a vanishing toroidal component is refused.",
  [I, C], "all combinations of listed parameters; Dommaschk modes single and in pairs; example and synthetic equilibrium files of different sizes; every combination of overridden components",
  "Tests evaluate a slab; the equilibrium files exchanged R and Z unless the flux was symmetric.",
  ["field.py"], [("field_direction", "field.py:164"), ("StraightStellarator/RotatingEllipse", "field.py:322"), ("DommaschkPotentials", "field.py:539"), ("Screwpinch", "field.py:882"), ("GEQDSK", "field.py:1210")], observe=["Bxfunc, Byfunc, Bzfunc, Bmag, Rfunc, pressure, field_direction"])
p("C22", "Poincare tracing returns every revolution and slice in order",
  "Poincare tracing returns for every starting position, revolution and slice the position where the field line crosses that slice in that revolution, with the sorted slices (given in any order, or equally spaced), starting from the starting position. "
  "Slices outside of the period are refused and the caller's slices are not modified.",
  [I, C], "all orders of up to 4 of 5 slices including the ends of the period, numbers of slices, revolutions and periods within bounds, 3-4 fields",
  "One test with a slab and default slices.",
  ["fieldtracer.py"], [("trace_poincare", "fieldtracer.py:321")], observe=["trace_poincare"])
p("C23", "Cell Jacobians and lengths are integrals along the field lines",
  "The lengths in the maps are those of the field line through the cell centre over one step in y, around the cell centre and towards the previous and the next slice; the field given with them is that on the field line in the middle of each of these parts. The Jacobian is the average over the cell along the field line of the volume element that conserves flux. "
  "These converge with refinement and do not depend on how the work is split into chunks.",
  [I, C], "2 kinds of grid, 3 fields, 1-16 refinements, 1-4 slices, every number of chunks from 1 to more than the number of rows",
  "Tests only use the default number of chunks and do not look at these values.",
  ["zoidberg.py"], [("make_maps: refine_parallel_integral, n_chunks", "zoidberg.py:57")], observe=["J, Ly, By and their _cell_ylow/_cell_yhigh in the maps"])
p("C24", "Generated grids fill the region between the lines without folding",
  "Grids generated between an inner and an outer line have the requested size, their first and last (not extended) surfaces lie on the lines, no cell is folded or degenerate, and surfaces beyond the lines continue them linearly. "
  "Elliptic grids solve their difference equation to the requested tolerance or an error is raised, and start at the outer line's evenly spaced points by default; annulus grids lie on straight lines between points of the same angle. The input lines are not modified.",
  [I, C], "4 pairs of lines, 9 sets of options, 4-10 sizes that are coarsened or not, several starts, 5 extensions",
  "Tests make one grid of circles.",
  ["poloidal_grid.py"], [("grid_elliptic", "poloidal_grid.py:608"), ("grid_annulus", "poloidal_grid.py:544")], observe=["R and Z of the returned grid"])
p("C25", "Fields from VMEC files are those of the coefficients in the file",
  "The magnetic field read from a VMEC file has, at every position inside the last surface and every toroidal angle (periodic for any number of turns), the components given by the Fourier coefficients of the surfaces and of the contravariant field in the file, with VMEC's angle convention and the field interpolated from between the surfaces, from the axis to the last surface, with or without up-down symmetry. "
  "It is linearly interpolated within the requested resolution; away from the plasma the field is purely toroidal.",
  [I, C], "5 geometries (axisymmetric, rotating ellipse, helical axis), field periods, symmetric or not, 5 fields, resolutions; positions on a lattice of surfaces and angles; angles within several turns",
  "There is no test of this class; a wrong helicity and a field of zero next to the axis went unnoticed.",
  ["field.py"], [("VMEC.read_vmec_file", "field.py:982"), ("VMEC.__init__: interpolation", "field.py:1055")], observe=["components returned by Bxfunc, Byfunc, Bzfunc"])
p("C26", "Fields from web services are those of the service, also after failures",
  "The magnetic field asked from a web service has at the points of its lattice the components the service gives for the requested configuration, converted to cylindrical coordinates, plus the plasma part if requested, is linear in between, periodic for any number of turns and purely toroidal outside of the lattice; fields that are evaluated on demand or wrapped give them at every position and for every shape of the input. "
  "A saved field is used only for the same request, and gives the same values. A failing request for a vacuum field is repeated once, then the error is passed on. A failing request, or one that is interrupted or killed at any point of saving, never makes a later construction fail or give other values.",
  [H, "crash_points", "fault_sequences"], "all sequences of 2 of 19 (3 of 10) requests that differ in one thing; every pattern of failing requests; interruption of every save and rename at several bytes; 6 angles, 4 shapes for fields on demand",
  "Tests need the web service and are skipped.",
  ["field.py"], [("W7X_vacuum: saved files", "field.py:1342"), ("W7X_vacuum.plasma_field", "field.py:1569"), ("W7X_vacuum_on_demand", "field.py:1822"), ("W7X_VMEC", "field.py:1858"), ("FusionSCField", "field.py:1990")], state=[("saved fields", "values by request", "field.py:1342")], observe=["components returned by Bxfunc, Byfunc, Bzfunc, Bxyzfunc"])

p("C27", "Increasing the resolution keeps slices and structures along field lines",
  "upscale returns a field with upscale_factor times the points in y. The slices of the field it is given are kept as they are. In between it is linear along the field lines: where all field lines around a point start and end inside the grid, the value at a fraction t of the way from one slice to the next (from the last to the first) is that of the field line through the point, interpolated linearly in t between the field at its start and at its end. Fields that are not of the shape of the grid, nor transposed, are refused; arguments stay unchanged, and showing the progress makes no difference.",
  ["inputs"], "8 kinds of maps (integer, fractional, varying along y, sheared), up to 8 sizes, factors 1 to 8, every slice and fraction, two layouts",
  "There is no test.",
  ["zoidberg.py"], [("upscale", "zoidberg.py:945")], observe=["returned field"])


p("C28", "Field lines on EMC3 grids continue through every period and zone",
  "The tracer for EMC3 grids keeps the position of a field line within its cell of the field aligned grid: the result at each requested y, in any order, forwards or backwards, is the point with the same position within the cell of the plane at that y. Field lines that leave through the last plane of a period enter the first one at the same point (backwards the other way round), any number of times, for starting positions in any zone and any period, and results do not depend on the other positions traced. Positions just outside of the grid use a cell next to the closest grid point. Inputs stay unchanged.",
  ["inputs"], "3 kinds of grids, 2-4 resolutions, 1-3 zones, 2 first planes, 4 sets of points, 22 sets of y up to 4 periods away, every grid point of the inner and outer edge at 3 distances",
  "There is no test: the packages it needs are not installed; the check uses stand-ins for them.",
  ["fieldtracer.py"], [("EMC3FieldTracer", "fieldtracer.py:745")], observe=["follow_field_lines"])


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for q in P:
            q = {k: v for k, v in q.items() if k != "note"}
            assert len(q["title"]) <= 80, q["id"]
            f.write(json.dumps(q) + "\n")
    checks = []
    for q in P:
        i = q["id"]
        checks.append({
            "property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "level": "model_checking",
            "technique": TECH.get(i, "explicit enumeration of all executions of the real code within bounds, against an independent reference model"),
            "level_note": "Exhaustive within the bounds (" + q["quantifier"]["text"] + "), on the code in /repo itself. "
            "Trusts the reference in checks/" + i.lower() + ".py, numpy and scipy; assumptions are listed in the evidence file.",
        })
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": NA,
         "notes": "All checks explore the real code with one stateless explorer (mc/engine.py). No hooks in /repo. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


TECH = {
    "C10": "stateless exploration of all operation sequences up to a depth on the real code, compared with fresh objects",
    "C11": "stateless exploration of all crash points (up to 3 per run) of the real code with fault injection",
    "C13": "stateless exploration of all call sequences, crash points, torn writes and interleavings of the real code",
    "C26": "stateless exploration of all request sequences, failures and crash points of saving, with a stand-in for the service",
    "C15": "stateless exploration of all fault sequences of the real code with a controlled worker pool",
}
NA = []
if __name__ == "__main__":
    main()
