T_EFF = ("static analysis: interprocedural flow-sensitive may-mutate/may-alias effect analysis over the "
         "Python and Cython syntax trees, summaries iterated to a fixpoint over the call graph")

P("C01", "Analysis functions never modify the fields, arrays or seeds they are given",
  """Calling any public analysis function or method (calculus, interpolation, streamlines, topology,
  rotations, coordinate transforms, mapping, slicing, time conversion) leaves every array, field,
  coordinate object, seed, list and dictionary passed to it as an argument with the values it had
  before the call. Explicit output arguments are the only exception.""",
  "inputs histories", "every public analysis function, every argument, every path through it and its callees",
  """tests compare results, not the arguments after the call, and only on the branches (dtype, layout,
  centering, keyword) they happen to take""",
  "viscid/field.py viscid/rotation.py viscid/calculator/calc.py viscid/cython/cycalc.pyx viscid/fluidtrace.py",
  "effect summaries @ all modules; in-place rotations @ viscid/rotation.py; curators @ viscid/fluidtrace.py",
  T_EFF,
  """One obligation per (public function, parameter). Sound up to the modelled numpy/scipy behaviour and
  name based resolution of untyped receivers; confirmed exceptions are listed with reasons in
  sa/mutcheck.py.""")

P("C02", "Loading, saving, plotting and utilities leave the caller's objects untouched",
  """Loading or saving files, plotting, building datasets and grids, and the utility functions do not
  modify the option dictionaries, keyword containers, lists, arrays or fields the caller passes in, so
  that the same options can be reused for the next call. Functions whose documented purpose is to fill
  or link the object they are given are the only exception.""",
  "inputs histories", "every public I/O, plotting, container and utility function and every argument",
  "tests call each function once with fresh literals, so a modified option dictionary is never noticed",
  "viscid/plot/vpyplot.py viscid/readers/vfile_bucket.py viscid/readers/hdf5.py viscid/vutil.py viscid/bucket.py",
  "effect summaries @ all modules; plot option handling @ viscid/plot/vpyplot.py; bucket handles @ viscid/bucket.py",
  T_EFF, """One obligation per (public function, parameter); same model and exceptions table as C01.
  Attribute assignment on plotting-library objects is not counted.""")

P("C03", "Reading from an object never changes it",
  """Methods and properties of fields, coordinates, seed generators, grids, datasets and coordinate
  transforms that are not documented mutators (setters, adding/removing children, activation, cache
  control) leave the object's own values, coordinates, names, children and options as they were;
  asking twice gives the same answer.""",
  "inputs histories", "every non-mutating public method and property of the data model, every call sequence",
  "tests call each method once on a fresh object; a method that edits its object only shows on later use",
  "viscid/field.py viscid/coordinate.py viscid/seed.py viscid/grid.py viscid/dataset.py viscid/cotr.py",
  "receiver effects @ viscid/field.py; lazy caches @ viscid/coordinate.py; seed points @ viscid/seed.py",
  T_EFF, """One obligation per public non-mutator method; declared mutators and lazily filled caches are
  listed with reasons in sa/checks/c03.py.""")

P("C04", "No state leaks from one call to the next",
  """No function of the package writes to module level objects, class attributes shared by all instances,
  or the objects used as parameter defaults, so the result of a call never depends on which other calls
  were made before it. The only exceptions are declared registries and one-time warnings.""",
  "inputs histories", "every function of the package, all call histories",
  "tests run each function once per process, in a fixed order",
  "viscid/coordinate.py viscid/cython/streamline.pyx viscid/plot/mpl_style.py viscid/dipole.py",
  "class level state @ viscid/coordinate.py; tracing global @ viscid/cython/streamline.pyx; mutable defaults @ all modules",
  T_EFF, "One obligation per function; exceptions listed with reasons in sa/checks/c04.py.")

T_TS = ("static analysis: typestate / exit-path analysis over the syntax tree (resource acquisition sites, "
        "ownership transfer to callers and owner objects, release on every normal and exceptional exit)")

P("C05", "Every file the package opens is closed again, also when something fails",
  """Every file, HDF5 handle, npz archive or Fortran unit the package opens is closed on every way out of
  the code that opened it, including when reading, decoding or writing raises part way; a handle kept
  on a reader object can be closed by that object, which is a context manager and safe to close twice.""",
  "inputs fault_sequences", "every place that opens a file, every exit path after it",
  """tests read well formed files and never look at open handles; a leak needs a truncated file, a bad header
  or many files""",
  "viscid/readers/hdf5.py viscid/readers/_jrm_openggcm_fortbin.py viscid/readers/openggcm.py viscid/npdatetime.py",
  "acquisition sites @ all modules; file wrappers @ viscid/readers; Fortran units @ viscid/readers",
  T_TS, "One obligation per acquisition site and per class that keeps a handle.")

T_VN = ("static analysis: abstract interpretation of the source over a canonical-expression domain (global "
        "value numbering: exact polynomial/trigonometric normal forms, phi joins at every branch), results "
        "compared with the definition as normal forms")

P("C16", "Every rotation conversion describes the same rotation",
  """Every function of the rotation module that converts between matrices, quaternions, Euler angles (all
  twelve axis orders), axis-angle vectors and from/to vector pairs, in radians or degrees, for single
  values or stacks, gives the rotation its arguments describe, with the module's active-rotation sign
  conventions. Converting to another representation and back, also at singular angles and for half
  turns, gives the same rotation.""",
  "inputs", "every conversion function, axis order, unit and representation; all angles and axes, symbolically",
  """tests sample a handful of angles for some axis orders; an error in one order, one quadrant or a half
  turn goes unseen""",
  "viscid/rotation.py",
  "conversions @ viscid/rotation.py; unit handling @ viscid/rotation.py",
  T_VN, """One obligation per (function, axis order, unit, stack shape, branch). Exact real arithmetic;
  rounding and the accuracy of numpy's eigen solver are not modelled.""")

P("C17", "Coordinate transforms compose, invert and match their definition",
  """For every ordered pair of geocentric coordinate systems (gei, geo, gse, gsm, sm, mag, mhd), for any
  date or given dipole angles and matrix size 3 or 4, the transform is the composition of Hapgood's
  (1992) elementary rotations with IGRF-12 dipole terms, so that it is orthogonal, inverses cancel and
  chains compose in whatever order transforms are requested. The dipole moment, tilt and gsm angles,
  the conversion of a moment into a Cotr object and the axis-angle form of a transform are those of the
  same rotations.""",
  "inputs histories", "all 49 pairs, dates, dipole overrides, the no-tilt date, matrix sizes and request orders",
  "tests compare a few pairs at a few dates; the other pairs and cached reversed requests are not evaluated",
  "viscid/cotr.py",
  "elementary matrices and chains @ viscid/cotr.py; IGRF table @ viscid/cotr.py; dipole conversions @ viscid/cotr.py",
  T_VN, """One obligation per (pair, mode, size), inverse, application and dipole conversion. Time
  arithmetic is reduced to elapsed seconds by models of the npdatetime helpers.""")

P("C20", "One step of each integrator is its Butcher tableau",
  """One step of each streamline integrator (euler1, rk2, rk4, euler1a, rk12, rk45) along any field moves the
  point by the combination of stage directions its Butcher tableau prescribes, adds step length over the
  weighted speed to the travel time, and fails without moving the point when the field is zero or not a
  number at any stage. The adaptive ones estimate the error from the difference of the two embedded
  solutions per step length and keep, shrink or repeat the step, from the same starting point and within
  the smallest and largest step, as that estimate compares with the tolerance.""",
  "inputs", "every integrator, every field, step, tolerance and number of repeated steps, symbolically",
  """tests compare whole streamlines loosely; a wrong coefficient, time weight or rejected step only loses
  accuracy""",
  "viscid/cython/integrate.pyx viscid/cython/streamline.pyx",
  "stages and weights @ viscid/cython/integrate.pyx; step size control @ viscid/cython/integrate.pyx",
  T_VN, """One obligation per integrator, stage failure, number of repeats and step-control case; the
  interpolated field is an uninterpreted function, arithmetic is exact.""")

P("C21", "Interpolation returns the trilinear or nearest neighbour value",
  """For every point and every component the compiled interpolation returns the trilinear combination of the
  surrounding values, on that component's own coordinates, or the value at the nearest point, clamped to
  the boundary value outside the grid and on axes of extent one. This holds for uniform and nonuniform
  grids, whichever cell was used for the point before, and on AMR fields the patch that contains the
  point is used.""",
  "inputs histories", "every point, component, grid extent, coordinate order and remembered search index",
  "tests interpolate a few fields at random interior points on cell centred uniform grids",
  "viscid/cython/cycalc.pyx viscid/cython/cyamr.pyx viscid/cython/cyfield.pyx",
  "index search and weights @ viscid/cython/cycalc.pyx; patch choice @ viscid/cython/cyamr.pyx; coordinate setup @ viscid/cython/cyfield.pyx",
  T_VN, """One obligation per (position class of the point, grid kind, remembered index), comparisons decided
  by the order class; loops unrolled for extents up to 4 and 40.""")

P("C13", "Field arithmetic is elementwise and keeps the grid it was computed on",
  """For every pair of operands (fields, AMR fields, arrays, numbers) the operators, augmented
  assignments and comparisons of fields give the elementwise result of the same operation on the data,
  operands in the written order. Reductions over an axis give the reduction of the data along that axis and a
  field on the coordinates of the remaining axes. The operands are unchanged, and AMR fields do the same
  patch by patch.""",
  "inputs", "every operator, operand type, field layout, centering and axis",
  "tests add and multiply a few fields and compare sums of one layout",
  "viscid/field.py viscid/amr_field.py",
  "operator methods and reductions @ viscid/field.py, class Field; per patch application @ viscid/amr_field.py",
  T_VN, """One obligation per (operator, operand kinds, layout, axis): the method found on the class is interpreted
  on fields of symbols of extents 3 to 5 and the result compared term by term with the operation on the data.""")

P("C14", "All implementations of a field operator compute the same defined quantity",
  """For every vector or scalar field, layout and centering, div, curl, grad, dot, cross, magnitude, normalize,
  project and the convective derivatives give the values of their definition, on the right points of the grid,
  and the numexpr, numpy and native implementations agree with each other. Differences use the coordinates
  of the points they are taken between, nonuniform grids included.""",
  "inputs", "every field value, coordinate array, layout, centering, boundary option and implementation",
  "tests compare implementations with an analytic field to a tolerance on uniform grids",
  "viscid/calculator/calc.py viscid/calculator/necalc.py viscid/field.py",
  "operators and native implementations @ viscid/calculator/calc.py; numexpr implementations @ viscid/calculator/necalc.py",
  T_VN, """One obligation per (operator, implementation, layout, centering, boundary option): values and coordinates
  of the result compared with the definition written independently, on grids of extents 4 to 6 with symbolic
  coordinates; numexpr expressions are parsed from the source.""")

P("C23", "Indexing a field selects values and coordinates together",
  """Every kind of non-empty selection from a field (index, slice, stride, reversed, list, location, range of locations,
  component name; positional or by axis name) gives exactly the selected values on the coordinates of the same
  elements, with the same centering, and assigning to it changes those elements only. A location selects the nearest element and a range of
  locations the elements inside it; slice_keep and slice_reduce keep or drop axes of one element without
  changing anything else, transposing moves values and coordinates together, and the source is unchanged.""",
  "inputs", "every field, selection, centering and layout",
  "tests slice a few fields at fixed indices and compare shapes or single values",
  "viscid/field.py viscid/coordinate.py viscid/sliceutil.py",
  "slice, slice_and_keep, slice_and_reduce, transpose @ viscid/field.py; _make_slice @ viscid/coordinate.py; std_sel2index @ viscid/sliceutil.py",
  T_VN, """One obligation per (selection, centering, layout), on a field of symbols of extents 5, 6, 7 with symbolic
  coordinates; comparisons of locations with coordinates are decided by the order class of the location.""")

P("C22", "Moving a field between centerings and padding it give the defined values",
  """Averages of face and edge centered fields to cell centers are the mean of the two faces (four edges) that
  bound the cell, and the divergence of a face centered field is the sum of the face differences over the
  extent of the cell, for either staggering of the data, flipped axes, and both implementations. Node to cell
  and cell to node conversions keep every value and give it the coordinates of its point, and
  extending boundaries keeps the interior and continues values and coordinates by the stated order.
  The operand is unchanged.""",
  "inputs", "every field value, coordinate array, layout, staggering, flip, axis of one cell, padding width and order",
  "tests plot or compare one analytic field on one grid to a tolerance",
  "viscid/calculator/ecfc.py viscid/calculator/calc.py viscid/field.py viscid/coordinate.py",
  "fc2cc, ec2cc, div_fc, make_ecfc_field_leading @ viscid/calculator/ecfc.py; extend_boundaries @ viscid/calculator/calc.py; as_cell_centered, as_node_centered @ viscid/field.py",
  T_VN, """One obligation per (conversion, implementation, layout, staggering, flip, extents 1 to 5, padding widths and
  order): every value and coordinate of the result compared with the definition on symbolic fields.""")

P("C15", "Point, line and flux estimates combine the right values with the right weights",
  """jacobian, div and curl at a point are centered differences of interpolated values over twice the step
  in each direction (given, or the grid spacing there), the jacobian at an index uses the neighbouring elements, and all rows and
  columns are in xyz order. Integrals along a line sum the mean of the end values of each segment (dotted with it,
  or times its length), line by line, with the requested interpolation, and projections use the direction of the line.
  The flux function integrates the in-plane components from the stated corner, and beta is scale * 2 p / B^2.""",
  "inputs", "every field, point, step, line length, reduction, layout, centering and plane",
  "tests integrate along a few lines of one field to a tolerance",
  "viscid/calculator/calc.py viscid/calculator/plasma.py",
  "local_vector_points, jacobian_at_*, div_at_point, curl_at_point, integrate_along_lines, project_along_line @ viscid/calculator/calc.py; calc_psi, calc_beta @ viscid/calculator/plasma.py",
  T_VN, """One obligation per (estimate, options, layout, centering, place of the point, line lengths 2 to 5); the
  interpolated field is an uninterpreted function of the point it is evaluated at.""")

P("C19", "Spherical coordinate conversions agree with each other and keep values in place",
  """Cartesian, spherical (r, theta, phi) and latitude / longitude forms of points are the documented functions of
  each other, for one point or N, integer or real, in degrees or radians as the flag says, and the points given are not changed.
  A field on phi / theta or lat / lon axes converted to other angular axes, order or units keeps its value at
  every point of the sphere, and polar fields and polar points give distance from the named pole against longitude, keeping values.
  A great circle starts and ends at the given points, and its radius goes linearly from one to the other.""",
  "inputs", "every point, number of points, unit, axis order, centering, layout and hemisphere",
  "tests plot ionosphere files and compare nothing",
  "viscid/mapfield.py",
  "cart2sph, sph2cart, latlon2cart, cart2latlon, great_circle, theta2lat, convert_coordinates, as_mapfield, as_spherefield, as_polar_mapfield, pts2polar_mapfield @ viscid/mapfield.py",
  T_VN, """One obligation per (function, number of points, unit) and per (conversion, source and target axes, unit,
  uniform or not, centering, layout, hemisphere) on symbolic points, coordinates and values.""")

P("C31", "Seed generators put points, coordinates, meshes and values together",
  """Every seed generator except Spline gives nr_points points where its geometry puts them: on the line, plane (N, L projected, M = N x L), box,
  sphere, cap, circle or patch of the given center, directions, radius and limits, equally spaced, poles and a closed phi not
  repeated. get_points, iter_points, cached points and uv_to_3d of the 2d grid are the same points in the same order.
  wrap_field puts value i at the coordinates of point i, scalar or vector, and as_mesh, arr2mesh and
  wrap_mesh give vertices and values of the same points, closing poles (mean of the ring) and the seam. Planes with parallel N and L are refused.""",
  "inputs", "every center, direction, radius and value; limits, sizes and options from lists",
  "tests only plot seeds of a few generators",
  "viscid/seed.py",
  "Point, MeshPoints, RectilinearMeshPoints, Line, Plane, Volume, Sphere, SphericalCap, Circle, SphericalPatch, to_seeds @ viscid/seed.py; wrap_field @ viscid/field.py",
  T_VN, """One obligation per (generator, options, representation): points, values, vertices, 2d and local shapes.
  1 to 5 points per direction; limits at, between and across the poles; the rotation of the pole is an
  uninterpreted function of direction and roll (decided by C16), and is interpreted for three poles.""")

P("C18", "Dipole fields, masks and maps follow the dipole formula",
  """fill_dipole, make_dipole and calc_dip give (3 r (m.r) / r^2 - m) / r^3 at each point, for each centering (on edges and faces
  every component at its own points), layout, implementation and number of points, with the moment
  rescaled to the given strength, and a mask limits what is filled. make_spherical_mask is True exactly where
  rmin^2 <= r^2 < rmax^2, and set_in_region sets alpha * a + beta * b where its mask is True and nowhere else.
  xyz2lsrlp and dipole_map follow r = L cos^2(latitude) in sm coordinates (there and back with the same transform), keeping longitude and
  hemisphere, and dipole_map_value evaluates the field at the mapped points in the axes and units of the field.""",
  "inputs", "every moment, point, grid, centering, layout, mask, radius and coordinate system",
  "tests compare one dipole with a reference to a tolerance",
  "viscid/dipole.py",
  "fill_dipole, make_dipole, calc_dip, set_in_region, make_spherical_mask, xyz2lsrlp, dipole_map, dipole_map_value @ viscid/dipole.py",
  T_VN, """One obligation per (function, centering, layout, implementation, option); transforms and interpolation are
  uninterpreted functions of systems and points. Fields of 3 to 5 points per axis, 1 to 4 points.""")

P("C24", "A field sliced before it is loaded gives the values it gives afterwards",
  """For a field whose data is still in a data set, on disk in x, y, z or z, y, x order, flat, interlaced or by components, with
  or without reflected axes, and with or without the axis of a single cell, a selection by index (integer, range,
  list, stride, negative or past the end) and component gives the values, axes, coordinates, centering and
  number of components that the same selection gives on the loaded values. The data set is only read with increasing indices.""",
  "inputs", "every value and coordinate; selections, layouts, reflections from lists",
  "tests slice sample files of one kind and compare plots",
  "viscid/field.py viscid/sliceutil.py viscid/coordinate.py",
  "_finalize_slice, _xyz_src_data, _src_data_to_ndarray, _dat_to_ndarray @ viscid/field.py; make_fwd_slice @ viscid/sliceutil.py; reflect_slices, reflect_fld_arr @ viscid/coordinate.py",
  T_VN, """One obligation per (selection, centering, layout, reflected axes, order on disk, hypersliceable or not,
  missing axis): 4 to 7 elements per axis; the source refuses backward and unordered reads as h5py does.""")

P("C25", "OpenGGCM grids give every value at its place in the right coordinates",
  """A GGCMGrid converts mhd to gse exactly when mhd_to_gse_on_read (force, true, false, auto, auto_true) and the coordinate system it is told, or
  infers from the log file, say so. A field then has the stored value of (-x, -y, z) at (x, y, z), with the sign of the x and y
  components of vectors (v, rv1, b, b1, b2, e, efl, j, xj and their staggered variants) reversed and of nothing else, whether it is read
  whole, sliced, by component, again, with numexpr or copied. T = pp / rr, vectors and components, bmag, speed, jmag, beta, psi, divB and
  b1, b2 times bbnorm, and staggered fields and their cell averages follow from the stored fields at their own places.""",
  "inputs", "every value, coordinate and norm; requests, log files, field names and layouts from lists",
  "tests read a sample without a log file",
  "viscid/readers/openggcm.py viscid/grid.py viscid/field.py viscid/coordinate.py",
  "GGCMGrid, mhd2gse_field_scalar, mhd2gse_field_scalar_m1, mhd2gse_field_vector @ viscid/readers/openggcm.py; get_field, __getitem__, iter_fields @ viscid/grid.py",
  T_VN, """One obligation per (field, how it is read, request, option), per (request, log file) and per (derived field,
  stored fields, coordinate system). 4 to 6 cells per axis; psi only up to the field and direction given to calc_psi.""")

P("C26", "A time selection on a dataset gives the frames it names",
  """However frames were added (any order, loaded or deferred), a DatasetTemporal keeps them in increasing time. An index, list, slice or
  stride gives those frames; a time gives the nearest frame; a range of times gives the frames between both ends, both included (the last only with
  val_endpoint), in either direction, and with interior one more beyond each end that no frame is at. iter_times, get_times, get_time,
  nr_times, get_child, get_grid, get_field, iter_fields, field_dict, activate and tslc_range agree, also through nested Datasets. The frame
  added or activated last is the default, and information of a dataset is found from its frames and fields.""",
  "inputs histories", "every time and value; selections, orders of adding and nesting from lists",
  "tests iterate one short series",
  "viscid/dataset.py viscid/sliceutil.py viscid/tree.py viscid/grid.py",
  "Dataset, DatasetTemporal, DeferredChild @ viscid/dataset.py; std_sel2index, sel2values @ viscid/sliceutil.py; find_info, prepare_child @ viscid/tree.py",
  T_VN, """One obligation per (selection, how it is asked), per order of adding (4 frames, all orders) and per nesting;
  4 and 5 frames of symbolic times, selections relative to them by their order. Dates are not interpreted.""")

P("C35", "Derived fields keep time and find the information of what they were made from",
  """A field made from another by slicing, arithmetic, ufuncs, reductions, transposing, change of type, centering or layout, components, shell_copy, wrap,
  *_like, extend_boundaries, magnitude, normalize, dot, cross, project, div or curl, or taken from a grid or dataset, has the time of its source
  and finds the information set on the source, its grid and its dataset (the nearest wins); all but *_like, div and curl
  keep its meta, slices and copies its name. What is set on the new field is not seen by the source. find_info, find_attr,
  find_info_owner, update_info and get_all_info search self, then parents, then theirs, ending on cycles, with default, KeyError or AttributeError when there is none.""",
  "inputs histories", "every value and information; operations, centerings, layouts and graphs of parents from lists",
  "tests check the time of a few fields",
  "viscid/tree.py viscid/field.py viscid/grid.py viscid/dataset.py",
  "_parent_bfs, find_info, find_info_owner, get_all_info, update_info, find_attr, time @ viscid/tree.py; wrap, shell_copy, __array_wrap__, slice_keep @ viscid/field.py",
  T_VN, """One obligation per (operation, centering, layout, loaded or not), and per (search, graph of up to 5 nodes, owners).""")
P("C27", "What is saved is what is loaded again",
  """Fields saved with save_field, save_fields or save_grid to an HDF5 file (with the XDMF document beside it) or to npz, given as list, pairs, dict or grid,
  and loaded with load_file have the names, values (component by component), centering (node, cell, face, edge) and number of components they were saved with,
  on nodes and cells at the same coordinates in the same axis order, whatever the order of fields and whether compressed or on uniform coordinates.
  HDF5 also keeps the time (or that there is none) and the crd_system. Saving does not change the fields.""",
  "inputs", "every value, coordinate and time; kinds of fields, centerings, layouts and ways of saving from lists",
  "tests compare one saved file", "viscid/readers/hdf5.py viscid/readers/numpy_binary.py viscid/readers/xdmf.py viscid/readers/__init__.py",
  "save_fields, _GRID_TEMPLATE, _ATTRIBUTE_TEMPLATE @ viscid/readers/hdf5.py; save_fields, _parse @ viscid/readers/numpy_binary.py; save_grid, save_fields @ viscid/readers/__init__.py",
  T_VN, """One obligation per (format, fields, way of saving); the disk is a model of files holding symbols.""")
P("C28", "An XDMF document is read as it is written",
  """load_file on an XDMF document (VXVYVZ, X_Y_Z, or ORIGIN_DXDYDZ geometry; data inline or in HDF5 named relative to the document; pulled in with xi:include)
  gives the described tree of temporal and spatial collections and grids: every attribute a field with its values, centering and components, on the described coordinates.
  Frames have the times given by their own Time or by their collection (Single, List, HyperSlab); topology, geometry and information of a collection
  hold for grids in it without their own. A list of OpenGGCM or Athena XDMF documents is one time series, each frame once.""",
  "inputs", "every value, coordinate and time; forms of documents, up to 4 frames, from lists",
  "tests read a few sample files", "viscid/readers/xdmf.py viscid/readers/hdf5.py viscid/readers/ggcm_xdmf.py viscid/readers/athena_xdmf.py viscid/compat.py",
  "_parse_grid, _parse_geometry, _parse_topology, _parse_attribute, _parse_time, _parse_dataitem, _parse_information @ viscid/readers/xdmf.py",
  T_VN, """One obligation per (geometry, attributes, form) and per (collection, times, order, number of frames).""")
P("C07", "Buckets keep handles, items and open files in step",
  """After any history of adding, taking over and removing, each handle of a bucket gives the item it was last given to, an item without handles is gone, and membership, length, iteration, keys, values, items and primary handles agree;
  removing what is not there raises. A file bucket loads a file once and gives the same object until it is unloaded, reloads it in place with force_reload, loads it anew afterwards,
  skips files that cannot be opened, and keeps the files a container refers to until it and whoever else loaded them before are unloaded.""",
  "histories", "all histories of two operations and 1,100 longer ones, of 24 and 29 kinds of operation",
  "tests load and unload a file once", "viscid/bucket.py viscid/readers/vfile_bucket.py viscid/readers/vfile.py",
  "Bucket @ viscid/bucket.py; VFileBucket, ContainerFile @ viscid/readers/vfile_bucket.py; VFile.unload, VFile.reload @ viscid/readers/vfile.py",
  T_VN, """One obligation per eight histories. Removing a file that a container still refers to, and asking for a file only after a container has, are not claimed.""")
P("C08", "Equations run only when enabled, without builtins, and give their formula",
  """Unless the evaluator has been enabled, looking up an equation on a grid raises and no text reaches eval or numexpr; when it is enabled, what is evaluated has no double underscores and no builtins,
  and sees only fields of the grid and functions of the calculator or of numpy. The field that comes back has the values of the formula, the name asked for, the selected coordinates, the centering and the time of the grid.
  Outside the evaluator no module runs text that is not written in the source: no eval, exec, pickle, unsafe YAML loader or shell.""",
  "inputs histories", "every value and every text at a sink; equations, selections and ways to ask from lists",
  "the one test of the evaluator enables it", "viscid/calculator/evaluator.py viscid/grid.py viscid/_rc.py viscid/pyeval.py",
  "enabled, evaluate, _evaluate_numexpr, _evaluate_numpy @ viscid/calculator/evaluator.py; Grid.get_field @ viscid/grid.py",
  T_VN + "; syntax-tree query with name resolution for the sinks", """One obligation per scope (sink), per (equation, way to ask, value of enabled) and per (equation, way, selection). eval and numexpr.evaluate are models that record what they are given.""")
P("C32", "A streamline is the steps of its integrator and ends where it should",
  """A streamline is the steps of the chosen integrator backward from its seed, in reverse, then the seed, then the steps forward. Each direction ends with the first point inside ibound, beyond obound_r or outside obound0 and obound1,
  with the last segment cut to max_length or max_t, after maxit steps, or where the integrator cannot step; the topology says how both ends ended (a bitmask, or closed, open north or south, solar wind for topo_style 'msphere').
  Lines and topology come in the order of the seeds whatever nr_procs and chunk_factor are, and output, stream_dir and method are honoured.""",
  "inputs", "every seed position, step size and path with the same course of events; courses of events, options and splits from lists",
  "tests compare images or run times of dipole lines", "viscid/cython/streamline.pyx",
  "calc_streamlines, _py_streamline, classify_endpoint, end_flags_to_topology_msphere @ viscid/cython/streamline.pyx",
  T_VN, """One obligation per (course of events, direction, output, style), per method and spelling and per (seeds, processes, chunks). The integrators themselves are C20; here they are models that go a known way and notice a step from anywhere else. Ties in length and time, and which of several bounds a corner belongs to, are not claimed.""")
P("C37", "Chunks partition the work and a parallel map keeps its order",
  """chunk_slices and chunk_list split n elements into consecutive chunks that cover each once and differ by one at most; chunk_interslices takes every nchunks-th element, and chunk_sizes tells how many that is.
  With size, there are as many chunks as that size needs. map and map_async call the function once per argument tuple with the keywords and give the results in the order of the arguments, for threads, processes, a given pool or neither;
  pools they make are closed before they return, one they were given stays open.""",
  "inputs schedules", "up to 17 elements in up to 8 chunks; kinds of workers and orders of completion from lists",
  "no test runs more than one process in a way that shows the order", "viscid/parallel.py",
  "chunk_slices, chunk_list, chunk_interslices, chunk_sizes, map, map_async @ viscid/parallel.py",
  T_VN, """One obligation per (number, chunks, function) and per (kind of workers, arguments, order of completion). Executors and pools are models that run the calls in the given order.""")
P("C38", "AMR fields act on all their patches and select the right ones",
  """Arithmetic, comparisons, numpy functions and methods of an AMR field give the AMR field of what each patch gives with its counterpart in the other operand
  (an AMR field of as many patches or one, or a number). min, max, sum, prod, mean, std, ptp, any and all reduce the values of all patches together.
  Selecting by coordinates gives the selection from exactly the patches that overlap it (one field if it is only one), with axes reduced in some patches only put back with length one.
  An AMR grid has the bounds of its own patches, even when given a skeleton to reuse, and as neighbors of a patch exactly those that touch it.""",
  "inputs", "every field value; operations, selections and layouts of up to 9 patches from lists",
  "no test uses AMR data", "viscid/amr_field.py viscid/amr_grid.py viscid/cython/cyamr.pyx",
  "wrap_field_method, _prepare_amr_slice, _finalize_amr_slice, __array__, __array_wrap__, __getattr__ @ viscid/amr_field.py; AMRSkeleton, compatable_with @ viscid/amr_grid.py; discover_neighbors @ viscid/cython/cyamr.pyx",
  T_VN, """One obligation per (operation, layout, centering) and (selection, method, layout, centering). Selections that leave one value in some patch are not claimed.""")
P("C39", "Plots show every value at its own place, in colours that cover it",
  """plot2d_field gives the plotting library each value of the field, times scale, at the coordinates of that value, times mod, with the axes exchanged for flip_plot, in every style; plot1d_field does for lines.
  The colours (and contour levels) cover exactly the values that are shown, or the limits asked for, symmetric or logarithmic on request; the axes cover the field or the limits asked for.
  Labels are the ones asked for, or the names of the axes that are shown.""",
  "inputs", "every field value, coordinate, scale, mod and limit; options, styles, centerings and selections from lists",
  "tests plot to files nobody compares", "viscid/plot/vpyplot.py",
  "plot2d_field, _plot2d_single, plot1d_field, _extract_actions_and_norm, _pop_axis_opts @ viscid/plot/vpyplot.py",
  T_VN, """One obligation per (style, field, options, rule). The axes are a model that records what it is given. Colour bars, map projections, time axes and limits of the axes together with mod are not claimed.""")
