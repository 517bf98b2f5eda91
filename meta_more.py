XF = 'hexrd/core/transforms/xfcapi.py'
CAPI = 'hexrd/core/transforms/new_capi/transforms_task.c'
MU = 'hexrd/core/matrixutil.py'
PDT = 'hexrd/core/instrument/planar_detector.py'
CYL = 'hexrd/core/instrument/cylindrical_detector.py'
CU = 'hexrd/hed/xrdutil/utils.py'
BOUNDED = 'executable pre/postconditions on the compiled kernels, run on generated inputs (bounded stand-in of contract-based verification: no C/C++ verifier front end in reach for NumPy extension code)'

p('R04', 'Angle wrapping and range membership respect periodicity',
  'Mapping an angle into a range changes it by a whole number of periods and puts it inside the requested range, keeping values already inside; the angular difference of two angles is the acute one, symmetric and at most half a period; an angle is inside a union of (start, stop) ranges exactly when some multiple of 2 pi puts it in one of them, boundary included, for clockwise and counter-clockwise ranges.',
  I, 'every angle, every range, every array length', 'tests use a few angles; errors appear at range boundaries and for values several periods away',
  [ROT, XF, 'hexrd/hedm/indexer.py'], [('wrapping', ROT + ' mapAngle, angularDifference_opt'), ('range membership', XF + ' validate_angle_ranges'), ('indexer wrapping', 'hexrd/hedm/indexer.py _map_angle')],
  'wrapping and the compiled (C) range membership proved for all angles')
p('M01', 'Tensor vectorisation, projection and matrix utilities preserve their invariants',
  'Symmetric tensors converted to Mandel-Voigt, Voigt stress/strain or deviatoric vectors and back are unchanged, inner products and stress-strain work are preserved, and the normal projection of a tensor vector is n A n. Unit vectors have norm one and the direction of the input, symmetric and skew parts add up, duplicate-vector search keeps one representative of each, the null space and the vector alignment (Wahba) satisfy their equations; no helper changes its argument.',
  I, 'all tensors, vectors and stack sizes', 'tests check single tensors; a wrong scale factor on one component or an aliasing write needs the identity over all entries',
  [MU], [('tensor/vector conversions', MU + ' symmToVecMV, vecMVToSymm, symmToVecds, vecdsToSymm, stress/strain pairs'), ('vector helpers', MU + ' unitVector, columnNorm, rowNorm, uniqueVectors'), ('alignment', MU + ' solve_wahba')],
  'algebraic identities proved for all inputs; SVD-based and combinatorial helpers by bounded contract')
p('X01', 'Direct and reciprocal lattice geometry agree for every lattice type',
  'The lattice-vector matrices have the metric of the cell for all seven lattice types, direct and reciprocal bases are dual, lattice parameters are recovered from the vectors, and plane spacings and Bragg angles follow (unreachable reflections become nan). In the unit cell, lengths, dot products, angles, cross products and space changes are independent of the space they are evaluated in, and rhombohedral/hexagonal and three/four index conversions are exact.',
  IC, 'all cell parameters of all lattice types, all vectors, all wavelengths', 'tests use cubic or a few fixed cells where off-diagonal errors vanish',
  [XT, UCF], [('lattice vectors', XT + ' latticeVectors, latticeParameters, latticePlanes'), ('unit cell', UCF + ' calcmatrices, TransSpace, CalcLength, CalcDot, CalcAngle, CalcCross'), ('index conversions', XT + ' hexagonalIndicesFromRhombohedral, convert_Miller_direction_to_MillerBravias')],
  'proved for all cell parameters; stars and orbits by bounded contract')
p('G01', 'Reflections, scattering angles and detector coordinates are one geometry',
  'Lattice vectors, (two-theta, eta, omega) angles, diffracted ray directions and planar detector coordinates computed by the transforms describe the same rays, for any beam direction, eta reference, detector tilt and translation, sample rotation and translation, crystal orientation and offset: converting either way agrees with ray tracing, a reflection that does not meet the Bragg condition or the detector gives nan, and single vectors and stacks agree.',
  I, 'all geometries, unit vectors and coordinates', 'tests use recorded geometries; errors hide for tilted beams, offset samples or unusual eta references',
  [XF, CAPI, 'hexrd/core/transforms/new_capi', 'hexrd/core/transforms/cpp_sublibrary/src/transforms.cpp'],
  [('angles to vectors', XF + ' angles_to_gvec, angles_to_dvec'), ('vectors to detector', XF + ' gvec_to_xy'), ('detector to angles', XF + ' xy_to_gvec')],
  'C kernels (gvec_to_xy, xy_to_gvec) proved from their clang syntax tree for any number of points; C++ kernels (angles_to_gvec, angles_to_dvec) by bounded executable contracts')
p('G02', 'Oscillation angles satisfy the Bragg condition and no solution is lost',
  'For every reflection, crystal orientation, stretch, sample tilt, beam direction and wavelength, the two returned (two-theta, eta, omega) solutions rotate the reciprocal vector onto the Ewald sphere; nan is returned exactly when no rotation does.',
  I, 'all reflections, orientations, stretches, chi, beams and wavelengths', 'tests compare with recorded solutions; existence of both solutions must hold everywhere',
  [XF, CAPI, 'hexrd/core/transforms/new_capi'], [('oscillation angles', XF + ' oscill_angles_of_hkls')],
  'C kernel proved from its clang syntax tree for any number of reflections')
p('G03', 'Frame rotation matrices and compiled rotation kernels follow their definitions',
  'Detector tilt, sample oscillation, beam-frame, exponential-map and half-turn matrices are orthonormal with determinant one and equal their defining products; row normalisation returns unit vectors (zero vectors unchanged), rotation of vectors about axes is the Rodrigues rotation, and the compiled orientation distance is the smallest misorientation over the symmetry operators.',
  I, 'all angles, vectors, beams and orientations', 'tests compare a few recorded matrices',
  [XF, 'hexrd/core/transforms/new_capi', 'hexrd/core/transforms/cpp_sublibrary/src/transforms.cpp'], [('rotation kernels', XF + ' make_detector_rmat, make_sample_rmat, make_beam_rmat, make_rmat_of_expmap, make_binary_rmat'), ('vectors', XF + ' unit_vector, rotate_vecs_about_axis, quat_distance')],
  'C kernels proved from their clang syntax tree; C++ kernels (sample rotations of many frames, exponential map, half-turns) by bounded executable contracts')
p('D01', 'Planar detector pixels, coordinates and angles are consistent and invertible',
  'On a planar panel pixel indices and cartesian coordinates are inverse to each other, pixel vectors, edges, corners and extents agree with the pixel pitch and shape, and the lab-frame points, two-theta/eta of pixels and beam position are those of the ray from the sample. Converting detector coordinates to angles and back returns the coordinates for every tilt, beam, sample offset and rotation, with distortion applied exactly when requested; the angular pixel size bounds the change over one pixel.',
  IC, 'all panel sizes, pitches, tilts, translations, beams, sample frames, numbers of points', 'tests use one or two real instruments with square pixels and default beams',
  [DET, PDT], [('pixel grid', DET + ' row_pixel_vec, col_pixel_vec, cartToPixel, pixelToCart'), ('angles', PDT + ' cart_to_angles, angles_to_cart, pixel_angles'), ('angular size', DET + ' angularPixelSize')],
  'pixel grid proved for all sizes and any number of points; angle conversions rest on the compiled kernels (bounded)')
p('G04', 'Cylindrical detector coordinates, rays and angles are consistent',
  'On a cylindrical panel image coordinates map to the point at that arc length and height on the cylinder, a diffracted ray meets the cylinder at the far intersection, is kept exactly when it falls on the panel, and unrolls to the original coordinates. Converting to angles and back is the identity for any tilt, beam, sample frame and radius with the sample inside the cylinder; local normals point outward and distortion is applied exactly when requested.',
  IC, 'all cylinder poses, radii, extents, rays and sample frames', 'tests mock the projection helpers or use one pose; the projection back had never been executed',
  [CYL, CU], [('projection', CU + ' _warp_to_cylinder, _unitvec_to_cylinder, _clip_to_cylindrical_detector, _dewarp_from_cylinder'), ('panel', CYL + ' cart_to_angles, angles_to_cart, pixel_angles, local_normal')],
  'projection steps proved; the composed panel methods by bounded contract')
p('E01', 'Trial orientations score the fraction of predicted spots with intensity',
  'For every orientation, set of maps, threshold, ranges, tolerance and omega period, the completeness is the number of predicted reflections (both solutions, all equivalents of the mapped hkls) having intensity above the threshold of their hkl within the tolerance window, over the number predicted inside the azimuth and omega ranges and the maps: 0 if there are none. Missing bins are not counted. Ranges are taken modulo one turn, overlapping ones refused; processes and order of orientations make no difference.',
  IH, 'all orientations, maps with missing bins, ranges, thresholds, tolerances, periods, numbers of processes', 'tests run one indexing; a wrong range, window or denominator still ranks the true orientation first',
  ['hexrd/hedm/indexer.py'], [('scoring', 'hexrd/hedm/indexer.py paintGrid, paintGridThis, _filter_and_count_hits, _angle_is_hit, _check_dilated'), ('ranges', 'hexrd/hedm/indexer.py _normalize_ranges, _find_in_range')],
  'scoring, windows, ranges, set-up proved (edge lists up to 9 limits); whole runs by bounded contract')
p('D02', 'Panel clipping, buffers and image interpolation honour the pixel grid',
  'A point counts as on the panel exactly when it lies within the panel extent less the buffer (a margin pair or a pixel mask), clipped points keep their order, and off-panel points take the fill value. Nearest interpolation returns the pixel containing the point; bilinear interpolation uses the four neighbouring pixel centres with weights summing to one, reproduces constant and linear images, is not truncated for integer images and clamps at the border.',
  IC, 'all panel sizes and pitches, buffers, points, image types', 'tests interpolate one image at a few points in the interior',
  [DET, 'hexrd/core/gridutil.py'], [('clipping', DET + ' clip_to_panel'), ('interpolation', DET + ' interpolate_nearest, interpolate_bilinear, _generate_bilinear_interp_dict'), ('grid lookup', 'hexrd/core/gridutil.py cellIndices')],
  'proved for all panels and any number of points (pixel masks at one concrete shape); composed interpolation also by bounded contract')
p('D03', 'Detector distortion models and their inverses undo each other',
  'For every registered distortion model, apply and apply_inverse are inverse to each other on the panel, follow the stated form (azimuthal radial series, quadrant offsets, affine map), leave the caller\'s coordinates untouched, and are the identity for zero parameters.',
  IC, 'all parameters and points, the centre and axes included', 'tests mock the inverse or check shapes; the inverse must cancel the forward map for every parameter set',
  ['hexrd/core/distortion', 'hexrd/core/transforms/cpp_sublibrary/src/inverse_distortion.cpp'], [('radial model', 'hexrd/core/distortion/ge_41rt.py'), ('quadrant offsets', 'hexrd/core/distortion/dexela_2923.py'), ('affine model', 'hexrd/core/distortion/dexela_2923_quad.py')],
  'forward forms and closed-form inverses proved; compiled radial inverse by bounded contract')
p('D04', 'Intensity corrections follow path geometry and attenuation laws on every panel',
  'Per-pixel polarization, Lorentz, solid-angle, filter/coating/phosphor, sample, window, pinhole and Compton corrections follow their closed forms for the ray actually reaching the pixel: Beer-Lambert along the inclined path, depth average in the scattering layer, each layer with its own thickness and attenuation, no attenuation for absent layers, masked (nan) for rays leaving through the back, unphysical polarization refused.',
  IC, 'all panels (planar and cylindrical), beams, eta references, energies and layer stacks', 'tests mock the geometry or compare shapes',
  [DET, PDT, CYL, 'hexrd/core/instrument/physics_package.py', 'hexrd/core/material/crystallography.py'], [('layers', DET + ' calc_transmission_*, calc_compton_*, calc_effective_pinhole_area'), ('filters', PDT + ', ' + CYL + ' calc_filter_coating_transmission'), ('factors', XT + ' polarization_factor, lorentz_factor')],
  'layer formulas and factors proved; composition over real panels by bounded contract')
IMS = 'hexrd/core/imageseries/'
p('P01', 'Polar views take every pixel from the detector panels on its ray',
  'The polar grid has pixel centres regular in two-theta and eta, half a pixel inside its limits. Warping images to it gives, at every polar pixel, the sum over the panels of the bilinearly interpolated image at the point where that ray meets the panel (solid angle or masks applied as asked); a pixel is masked exactly when no panel contributes, panels\' buffers and repeated or cached warps included, and the input images are unchanged. Stereographic and equal-area projections follow their closed forms and leave the vectors passed in untouched.',
  IC, 'all grids, panel sets, image sizes, masks and buffers', 'tests warp one instrument once; errors live in borders, buffers, overlapping panels or a second warp',
  ['hexrd/core/projections/polar.py', DET], [('polar grid and warp', 'hexrd/core/projections/polar.py PolarView'), ('in-place interpolation', DET + ' _interpolate_bilinear_in_place'), ('spherical projections', 'hexrd/hedm/xrdutil/utils.py zproject_sph_angles')],
  'grid and panel sums proved for every size; the composed warp by bounded contract')
p('I01', 'Processed image series apply their operations in order to the right frames',
  'Frame k of a processed series is the source frame named by the frame list with the operations applied in list order: dark subtraction clips at zero for every image type, flips, rotations, rectangle crops and constant additions move each pixel as named; length, shape, type, regions, iteration, slicing and negative or NumPy indices agree with the processed frames, and the source frames are never changed.',
  IC, 'all image sizes and types, operation lists, frame lists and index forms', 'tests flip one small array; order dependence, unsigned wraparound and index forms need all combinations',
  [IMS + 'process.py', IMS + 'baseclass.py'], [('operations', IMS + 'process.py ProcessedImageSeries'), ('indexing', IMS + 'baseclass.py ImageSeries')],
  'operations proved for every image size; combinations also by bounded contract')
p('I02', 'Omega angles map to frames and back for every wedge layout',
  'Wedges partition the frames into contiguous runs of uniform steps and reproduce each frame\'s omega range. The frame found for an angle contains it modulo 360 degrees and one is found whenever a wedge contains the angle; a range of angles gives the consecutive frames from the one holding its start to the one holding its end (across one wedge boundary or the 360-degree seam), and nothing when there is a gap. Inconsistent omega metadata is refused.',
  IC, 'all wedge layouts, angles and ranges', 'tests use integer omegas in one or two wedges; boundaries, rounding and the seam need all of them',
  [IMS + 'omega.py'], [('lookup', IMS + 'omega.py OmegaImageSeries.omega_to_frame, omegarange_to_frames'), ('wedges', IMS + 'omega.py OmegaImageSeries._make_wedges, OmegaWedges')],
  'lookup proved for all angles and up to three wedges of any length; whole series by bounded contract')
p('I03', 'Image series survive saving and loading in every format',
  'Writing an image series (HDF5, or frame cache in npz or fch5 style) and opening the result returns the frames in order with their type, shape and metadata, frame caches keeping exactly the pixels above the threshold, whatever the number of workers, chunking or compression, and leaves the caller\'s metadata unchanged. Image-file series list the stored frames after skipping the empty ones and applying the frame limits, raw images are read with the stated offset, size, sign and byte order.',
  IH, 'all image sizes, types, thresholds, frame counts, options', 'tests write one array; sparse extremes, shapes, types, worker counts and rewriting need many',
  [IMS + 'save.py', IMS + 'load', 'hexrd/core/utils/hdf5.py'], [('frame cache', IMS + 'save.py WriteFrameCache'), ('HDF5', IMS + 'save.py WriteH5'), ('image files', IMS + 'load/imagefiles.py'), ('raw', IMS + 'load/rawimage.py')],
  'pixel extraction, file bookkeeping and type codes proved; round trips through real files by bounded contract')
p('I04', 'Image statistics equal their definition for every chunking',
  'Maximum, minimum, sum, average, median and percentiles over the frames of a series are the element-wise statistics of the first n frames, for every number of frames, image type, memory buffer and number of chunks; chunked iterators cover all frames in nearly equal chunks, and earlier results are not overwritten by later ones.',
  I, 'all frame counts, chunk counts, image sizes and types', 'tests use one chunking of a small series',
  [IMS + 'stats.py'], [('statistics', IMS + 'stats.py max, min, sum, average, percentile, median and their iterators'), ('chunking', IMS + 'stats.py _chunk_stops, _alloc_buffer')],
  'element-wise statistics and chunk boundaries proved; buffered percentiles by bounded contract')
p('X03', 'Reflection selections stay with their reflections',
  'Exclusions set as a mask, indices or ranges, or through limits on spacing, two-theta, structure factor or intensity, exclude exactly those reflections, read back the same, and keep applying to the same reflections when the lattice parameters, wavelength or two-theta limit change their order or number. Every view (two-theta, spacings, hkls, equivalents, multiplicities, IDs, ranges, counts) lists the same included reflections in two-theta order; merged ranges group exactly the overlapping ones.',
  IH, 'all reflection lists, orderings, selections and parameter changes', 'tests exclude reflections of one cubic material, whose order never changes',
  [XT], [('selection', XT + ' PlaneData.exclusions, exclude, tThMax, _thisHKL'), ('views', XT + ' PlaneData.getHKLs, getTTh, getSymHKLs, getHKLID'), ('ranges', XT + ' PlaneData.getTThRanges, getMergedRanges')],
  'selection proved for any number of reflections or every ordering of up to four; histories on real materials by bounded contract')
FIT = 'hexrd/core/fitting/'
p('F01', 'Peak profile functions, their derivatives and their fits agree',
  'Gaussian, Lorentzian, pseudo-Voigt and split pseudo-Voigt peaks (1-d, 2-d, 3-d, rotated) follow their closed forms with the stated widths at half maximum and a plane background; derivative matrices are the derivatives with respect to every parameter; multi-peak models are sums of their peaks and one background, bounded residuals add the stated penalties; pink-beam profiles are convolutions of a Gaussian or Lorentzian with the source profile; fits to exact peak data return the peak parameters.',
  IC, 'all parameters and grids', 'tests compare a few peaks with stored arrays; a wrong term or sign shows only for asymmetric or off-centre parameters',
  [FIT, 'hexrd/powder/wppf/peakfunctions.py'], [('profiles', FIT + 'peakfunctions.py'), ('residuals and estimates', FIT + 'fitpeak.py'), ('pink beam', 'hexrd/powder/wppf/peakfunctions.py _gaussian_pink_beam, _lorentzian_pink_beam')],
  'closed forms, derivatives, sums and penalties proved at a generic grid point; convolutions and fit recovery by bounded contract')
MAT = 'hexrd/core/material/'
p('X04', 'Cells under pressure and temperature follow the equation of state',
  'The pressure at the volume computed for a pressure and temperature is that pressure (third-order Birch-Murnaghan in the volume, modulus and derivative at that temperature, on the branch through the reference volume); thermal expansion integrates its coefficient; the lattice parameters given for a pressure and temperature have that volume with axial ratios and angles kept, applying them does not move the reference state, and files and JCPDS tables carry the equation of state unchanged.',
  IC, 'all moduli, expansion coefficients, pressures, temperatures and cells', 'tests evaluate one material at a few states; choosing the wrong root or reference volume shows only elsewhere',
  [MAT + 'material.py', MAT + 'jcpds.py'], [('equation of state', MAT + 'material.py Material.calc_pressure, calc_volume, vt, kt, ktp'), ('cell', MAT + 'material.py Material.calc_lp_at_PT, calc_lp_factor, lparms0'), ('tables', MAT + 'jcpds.py JCPDS_extend')],
  'equations proved; polynomial root finding, files and JCPDS tables by bounded contract')
p('X05', 'Composition, density and absorption of materials belong together',
  'Attenuation lengths of a compound are those of the mass-weighted mixture of its elements at its density; number densities, atoms per volume, unit-cell mass (occupancies counted) and density are consistent; the absorption length of a unit cell is that of its formula; coherent, squared and incoherent scattering of a composition are the sums over its elements by fraction, independent of the scale of the formula, with coherent factors evaluated at (Q/4pi)^2.',
  I, 'all formulas, densities, energies and Q', 'tests use single elements or mocked tables, for which mixing rules cannot be wrong',
  [MAT + 'utils.py', MAT + 'unitcell.py'], [('mixtures', MAT + 'utils.py calculate_linear_absorption_length, calculate_f_squared_mean, calculate_incoherent_scattering'), ('unit cell', MAT + 'unitcell.py CalcDensity, calc_absorption_cross_sec, calc_number_density')],
  'mixing rules proved for symbolic compositions and tables; tabulated limits by bounded contract')
p('U01', 'Cached results never differ from computing them afresh',
  'A memoized function returns the value for its own arguments whatever was called before, keeps its cache within its size (least recently used out first), and hands out arrays that cannot be changed under it; pixel-angle and gradient maps follow every change of pose, beam, size, pitch or distortion parameters of a detector, and frame caches are read again when their file has changed.',
  IH, 'all argument lists, call histories and detector changes', 'tests call a memoized function two or three times; collisions and stale entries need particular pairs or histories',
  ['hexrd/core/utils/decorators.py', PDT, CYL, IMS + 'load/framecache.py'], [('memoization', 'hexrd/core/utils/decorators.py memoize, _make_hashable'), ('pixel maps', PDT + ' _pixel_angles; ' + CYL + ' _pixel_angles'), ('frame caches', IMS + 'load/framecache.py _load_framecache_npz')],
  'cache step proved from any cache state, key collisions and histories by bounded contract')
CAL = 'hexrd/core/fitting/calibration/'
HIN = 'hexrd/core/instrument/hedm_instrument.py'
p('F02', 'Calibration parameters and the instrument, materials and grains agree both ways',
  'Creating the named fit parameters of an instrument, material or grain and applying them changes nothing; each named value lands in its own field (beams, stage, panel pose by any Euler convention, distortion parameters in index order, radius) and nowhere else; under group or system constraints the panels move as one rigid body to the pose given by the parameter values alone, whatever updates came before; names never collide; strain, position and plate-distance constraints hold the values they name.',
  IH, 'all instruments, conventions, constraint modes and sequences of updates', 'tests apply one mocked parameter set once; wrong destinations, ordering and history dependence need several panels and several updates',
  [CAL + 'lmfit_param_handling.py', CAL + 'relative_constraints.py', CAL + 'abstract_grain.py', CAL + 'instrument.py'], [('instrument', CAL + 'lmfit_param_handling.py create_instr_params, update_instrument_from_params'), ('rigid constraints', CAL + 'lmfit_param_handling.py _update_constrained_detector_parameters; ' + CAL + 'relative_constraints.py center_of_rotation'), ('materials and grains', CAL + 'lmfit_param_handling.py create_material_params, create_grain_params; ' + CAL + 'abstract_grain.py')],
  'one update proved from the state left by any history (induction over updates); field by field proved with rotation conversions by contract; real instruments and lmfit by bounded contract')
p('N01', 'An instrument is its configuration',
  'An instrument built from a configuration has exactly the panels, beams and stage it names, and writes a configuration (YAML or HDF5) that builds the same instrument again; changing the beam in use reaches every panel and no other beam, and invalid beams are refused; tiles of a chunked panel keep every pixel where it was in the laboratory and get their own part of masks and shared images; physics packages and detector layers read back as written with consistent derived lengths; the energy gradient gives each grain the wavelength of its position.',
  IH, 'all configurations, beams and tilings', 'tests read one or two fixed configuration files', [HIN, 'hexrd/core/instrument/detector.py', 'hexrd/core/instrument/physics_package.py', 'hexrd/core/instrument/detector_coatings.py', 'hexrd/hedm/xrdutil/utils.py'],
  [('configuration', HIN + ' HEDMInstrument.__init__, write_config; hexrd/core/instrument/detector.py Detector.config_dict'), ('beams', HIN + ' HEDMInstrument.beam_vector, beam_energy, source_distance, active_beam_name'), ('tiles', HIN + ' chunk_instrument, generate_chunks, _parse_imgser_dict'), ('energy gradient', 'hexrd/hedm/xrdutil/utils.py apply_correction_to_wavelength')],
  'construction, writing, beams, tiles and energy gradient proved for symbolic values; files, masks and layers by bounded contract')
CFG = 'hexrd/core/config/'
HCF = 'hexrd/hedm/config/'
p('C01', 'A configuration means what its file says',
  'Each document of a configuration file is the previous one updated with its own values (missing and null values inherit, sections are merged key by key, documents stay independent); every value is found under its key or gives its default, a value set is read back and written, and saving and opening gives the same documents; options are returned as given, completed (scalars to pairs) or refused when invalid; the number of processes is between 1 and the number of cpus; relative files are in the working directory; plane data are those of the active material at the beam energy of the instrument.',
  IH, 'all configuration documents and sequences of changes', 'tests read fixed documents; missing intermediate sections, aliases, one cpu or a changed active material never occur in them',
  [CFG, HCF], [('access and inheritance', CFG + 'config.py Config.get, set; ' + CFG + 'utils.py merge_dicts; ' + CFG + '__init__.py open, save'), ('options', HCF + 'findorientations.py, fitgrains.py; ' + CFG + 'root.py RootConfig'), ('material', CFG + 'material.py MaterialConfig')],
  'options and processes proved for symbolic values; access and merging for every block structure of stated depth; files by bounded contract')
p('V01', 'Quantities with units mean the same in every unit',
  'A quantity given in one unit and read in another is the same quantity (lengths, angles, energies, photon energy and wavelength), conversions and back agree, unknown units and conversions between kinds are refused, sums and differences are those of the quantities whatever their units, and materials and plane data take energies, wavelengths, spacings and angles in any unit with the same result.',
  I, 'all values and unit pairs', 'tests use the units in which the code stores its values', ['hexrd/core/valunits.py', MAT + 'material.py', MAT + 'crystallography.py', 'hexrd/core/constants.py'],
  [('conversion', 'hexrd/core/valunits.py valWUnit._convert'), ('wavelength', MAT + 'crystallography.py processWavelength'), ('material', MAT + 'material.py Material._set_beamEnergy, dmin')],
  'proved for every pair of units and symbolic values; materials by bounded contract')
p('E03', 'Eta-omega maps hold the intensity of their bins and lead to the grains',
  'Each bin of an eta-omega map is the summed intensity of the pixels of its ring (merged as tolerated) and azimuth bin in the frame of its omega, panels are combined bin by bin with bins seen by none marked, omega and eta edges are those of the images, and a map written to a file reads back the same; the candidate orientations made from a map contain the orientation that put spots there, whatever periods, wedges, thresholds and hkl ids are used.',
  IH, 'all image series, instruments, materials and periods', 'tests compare one map with a stored one; bin edges, several wedges and period choices are never varied',
  ['hexrd/hedm/instrument/generate_eta_omega_maps.py', 'hexrd/hedm/findorientations.py', HIN, 'hexrd/hedm/xrdutil/utils.py'],
  [('maps', 'hexrd/core/instrument/hedm_instrument.py HEDMInstrument.extract_polar_maps, _generate_ring_params, _run_histograms'), ('files', 'hexrd/hedm/xrdutil/utils.py EtaOmeMaps; hexrd/hedm/instrument/generate_eta_omega_maps.py'), ('seeds', 'hexrd/hedm/findorientations.py generate_orientation_fibers')],
  'bin assignment, merging of panels and edges proved; files, filters and end-to-end seeds by bounded contract')
p('P02', 'Powder rings and line positions are where the rings cross the panels',
  'The sectors of a ring tile the azimuth period with the given width, a sector is kept exactly when its corners and centre are on the panel, its position is that of its two-theta and azimuth on the panel, and the flags, ranges and edges returned describe it (list, plane data, merged and distortion-corrected rings alike); line positions are taken in those sectors with the given tolerances: the intensity of a cell is the interpolated image at its centre times its area in pixels, collapsed along the named axis, in ring and panel order.',
  IC, 'all panels, rings, sector widths and images', 'tests count the points of one ring set; round-off of widths that divide the period, merged rings and off-panel sectors are not in it',
  ['hexrd/core/instrument/detector.py', HIN, 'hexrd/hedm/xrdutil/utils.py', 'hexrd/core/gridutil.py'],
  [('sectors', 'hexrd/core/instrument/detector.py Detector.make_powder_rings'), ('lines', HIN + ' extract_line_positions, _extract_detector_line_positions, _extract_ring_line_positions'), ('cells', 'hexrd/hedm/xrdutil/utils.py make_reflection_patches; hexrd/core/gridutil.py')],
  'sectors, intensities and cells proved for symbolic panels, rings and images at stated sector counts; real instruments by bounded contract')

TX = 'hexrd/phase_transition/texture/'
p('T01', 'Orientation distributions are symmetric densities of mean one',
  'The kernel on rotations falls to half its maximum at its half width and has mean one over all orientations; with crystal or sample symmetry it is the mean over all symmetry images of the reference, so equivalent orientations have equal values and the mean stays one, and the misorientation angle is the smallest over the images; a distribution is the weighted sum over its modes, in whatever batches and shapes it is evaluated; its texture index is the mean of its square (one for the uniform texture) and its norm the root of that; symmetries, half widths, weights and orientations that make no distribution are refused.',
  IC, 'all orientations, half widths, symmetries, modes and weights', 'tests use a few orientations and estimate means by sampling',
  [TX + 'kernels.py', TX + 'unimodal_odf.py', TX + 'uniform_odf.py', TX + 'evaluation.py'],
  [('kernel', TX + 'kernels.py DeLaValleePoussinKernel'), ('modes', TX + 'unimodal_odf.py UnimodalODF.eval'), ('texture index', TX + 'evaluation.py texture_index')],
  'kernel, symmetrisation and mode sums proved for all orientations; integrals over all orientations by bounded executable contract (quadrature)')

PW = 'hexrd/powder/wppf/'
p('W01', 'Powder phases carry their material; spectra obey their arithmetic',
  'A phase of a powder pattern has the metric, reflections, spacings, Bragg angles, equivalent reflections and multiplicities of its material, and follows its lattice when that is changed; products, lengths and angles of vectors agree whichever of the direct, reciprocal and cartesian spaces they are written in; its structure factors are the sums over the atoms of the cell with their occupancies, scattering factors and isotropic or anisotropic displacements; extinction and absorption never amplify, join continuously where their series meet, and attenuate as the flat plate does; sums, differences and backgrounds of spectra are taken point by point over the common range, scaling and offset apply once, and binning, limits, extension and files keep the points.',
  IC, 'all lattices, vectors, wavelengths, atoms and spectra', 'tests fit a few stored patterns, where errors are absorbed by refined parameters',
  [PW + 'phase.py', PW + 'xtal.py', PW + 'spectrum.py', 'hexrd/core/material/unitcell.py'],
  [('phases', PW + 'phase.py Material_LeBail, Material_Rietveld'), ('intensities', PW + 'xtal.py _calcxrsf, _calc_extinction_factor, _calc_absorption_factor'), ('spectra', PW + 'spectrum.py Spectrum')],
  'metrics, transformations, form of extinction and absorption, and spectrum arithmetic proved for all inputs; structure factors and binning by bounded executable contract')
