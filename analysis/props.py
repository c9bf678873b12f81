"""The property catalogue; `python3 analysis/props.py` regenerates
properties.jsonl and MANIFEST.json from it."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
                  _t=technique, _n=note, _na=na))

I, C, H, F = 'inputs', 'configurations', 'histories', 'fault_sequences'

prop('M01', 'Map pixels hold only accepted data or the blank value',
 'Every pixel of a produced map plane holds either the plane\'s blank value or a datum that its source image successfully supplied for that pixel and that lies inside the inclusive [DATA_MIN, DATA_MAX] range in force, as expressed in the map\'s data type. A datum that could not be read or that is out of range never reaches the plane, and a blank value the chosen data type cannot represent is refused.',
 [I, C], 'all source images, data ranges, data types and map sizes',
 'The tests map a handful of small fixed configurations; whether some branch lets an unread or out-of-range value through depends on every path of the writer, for each of the six pixel types.',
 ['lib/marc/MapFactory_t.cpp', 'lib/marc/MapFactory.h', 'lib/marc/extrema.h', 'lib/marc/Map_traits.h', 'lib/marc/plot_info.h'],
 [('single guarded writer of map pixels', 'MapFactory::plot'), ('blank fill before plotting', 'MapFactory::make_map'), ('inclusive range test', 'extrema::in_range')],
 'predicated value-flow dataflow over the type-checked syntax tree (guard implication at every pixel store)',
 'Decides who writes pixels, under which conditions, with which value, for all six instantiations; does not bound the numeric value a source image computes.')

prop('M02', 'Every map pixel is visited exactly once, in row-major order',
 'For each projection, plotting a map of S samples by L lines visits the pixels in row-major order, handing pixel (line k, sample i) to the plotter with array position k*S+i and never a position outside the S*L array. A pixel is either plotted once with the coordinates computed for it or, where it lies off the body, skipped while its position is still consumed.',
 [I, C], 'all map sizes and all projections',
 'Existing tests check a few map sizes through one value per pixel; the position arithmetic must agree with the loop nest on every path, including the ones that skip a pixel.',
 ['lib/marc/SimpleCylindrical.cpp', 'lib/marc/Mercator.cpp', 'lib/marc/PolarStereographic.cpp', 'lib/marc/Orthographic.cpp', 'lib/marc/MapFactory_t.cpp'],
 [('loop nest with running offset', '*::plot_map'), ('plot functor handed the offset', 'MapFactory::plot')],
 'induction-variable (scalar evolution) analysis of the loop nests',
 'Proves the closed form of the position argument and the loop bounds; the coordinates themselves are decided by G02.')

prop('M03', 'Reported data extrema are exactly those of the data mapped',
 'The minimum and maximum recorded for a map plane change only when a datum is actually written to the plane, with that datum, such that the minimum never exceeds and the maximum is never below any datum written. Merging the ranges of several sources yields a range covering all of them, and a plane that received no data reports no extrema.',
 [I, H], 'all sequences of accepted data and of range merges',
 'Unit tests exercise a few update sequences; correctness is a statement about every sequence and every initial (empty or not) state.',
 ['lib/marc/extrema.h', 'lib/marc/MapFactory_t.cpp', 'lib/marc/plot_info.h', 'src/MosaicImageFactory.cpp', 'src/MapCommand_t.cpp'],
 [('extrema update on plotting', 'MapFactory::plot'), ('range accumulation', 'extrema::update')],
 'predicated value-flow dataflow with case analysis over comparison orderings',
 'The update functions touch values only through comparisons, so the finite set of orderings and empty/non-empty states is enumerated completely.')

prop('M04', 'Grid planes contain only background and line values',
 'A latitude/longitude grid image has exactly samples*lines pixels, starts with every pixel at the background value, and only ever receives the line value (255). Grid drawing never changes map data.',
 [I, C], 'all projections, map sizes and grid intervals',
 'No test inspects grid content; the claim concerns every drawing routine and every path in it.',
 ['lib/marc/MapFactory.cpp', 'lib/marc/SimpleCylindrical.cpp', 'lib/marc/Mercator.cpp', 'lib/marc/PolarStereographic.cpp', 'lib/marc/Orthographic.cpp'],
 [('zero-filled grid', 'MapFactory::make_grid'), ('drawing routines', '*::plot_grid')],
 'store-value (effect) analysis over all grid writers',
 'Decides the set of values stored and the initial fill.')

prop('M05', 'Pixel buffers are never indexed outside their bounds',
 'Every access to a map, grid, source image or body-mask pixel uses a position inside that buffer, whatever the sizes, nibble values, body position, geometry or (possibly non-finite) computed pixel coordinates. Sizes that do not match their buffer are refused before any access.',
 [I, C], 'all image sizes, nibble settings, geometries and grid intervals',
 'Tests use well-behaved geometries; an out-of-bounds access needs a specific size/nibble/geometry combination.',
 ['lib/marc/PhotoImage.cpp', 'lib/marc/PhotoImageParameters.cpp', 'lib/marc/BilinearInterpolation.cpp', 'lib/marc/ViewingGeometry.cpp', 'lib/marc/utility.h', 'lib/marc/SimpleCylindrical.cpp', 'lib/marc/Mercator.cpp', 'lib/marc/PolarStereographic.cpp', 'lib/marc/Orthographic.cpp'],
 [('bounds guards before indexing', 'PhotoImage::read_data, *::plot_grid, BilinearInterpolation::interpolate'), ('size validation', 'PhotoImageParameters::validate_parameters, invert_samples, invert_lines')],
 'guard-dominance and index-bound dataflow at every buffer access',
 'Bounds are discharged from dominating guards and constructor-established invariants over normalised linear index terms.')

prop('S01', 'A source image that yields no datum contributes nothing to a mosaic',
 'When several images cover a map point, the composite value is formed only from the images that successfully supplied a datum there: the first of them, their plain mean, or their weight-normalised mean according to the averaging option (if all their weights are zero, one of their data). A point for which no image supplies a datum yields no datum, and an image that fails to supply one affects neither the value, the count nor the weights.',
 [I, H], 'all subsets of contributing images, data and weights',
 'Tests use fixed-value images that always succeed or always fail; the interesting cases are mixtures and images that fail after having produced a partial value.',
 ['lib/marc/first_read.cpp', 'lib/marc/unweighted_average.cpp', 'lib/marc/weighted_average.cpp', 'lib/marc/MosaicImage.cpp', 'lib/marc/PhotoImage.cpp'],
 [('compositing strategies', 'first_read, unweighted_average, weighted_average')],
 'predicated value-flow dataflow over the accumulation loops (out-parameter taint on failed reads)',
 'Decides which read results flow into which accumulator under which guard.')

prop('S02', 'Only usable photo pixels are mapped',
 'A photo supplies a datum only from a pixel that is inside the image area left after nibbling, on the observed body when sky removal is on, not blank, and visible from the observer within the emission-angle limit (and on the lit side when terminator avoidance is on). Interpolation uses only pixels of that same usable area.',
 [I, C], 'all images, nibble values, geometries and pixel contents',
 'Tests contain one small photo with one geometry.',
 ['lib/marc/PhotoImage.cpp', 'lib/marc/BilinearInterpolation.cpp', 'lib/marc/ViewingGeometry.cpp', 'src/PhotoImageFactory.cpp'],
 [('visibility and mask checks', 'PhotoImage::read_data, ViewingGeometry::is_visible')],
 'guard-implication dataflow at every successful return of the photo read',
 'Each clause is a guard that must dominate success; the numeric correctness of the visibility computation is not decided.')

prop('S03', 'A photo pixel is weighted by its distance to the nearest edge or off-body pixel',
 'The weight used for weighted averaging of a photo pixel is the shortest of its distances, in pixels, to the four image edges (i, samples - i, k, lines - k) and, when sky removal is on, to the closest off-body pixel of the usable area in each of the four directions along its own line and its own sample column. No other quantity enters the weight, and it is computed for the pixel actually read whenever a weight is requested.',
 [I, C], 'all pixels, body masks, image sizes and nibble values',
 'No test with a body mask looks at weights, and a wrong distance only shifts a mosaic average slightly.',
 ['lib/marc/PhotoImage.cpp'],
 [('edge distance and mask scans', 'PhotoImage::data_weight, scan_samples, scan_lines')],
 'induction-variable and predicated value-flow analysis of the scans (minimum normal form)',
 'Every distance that can enter the minimum is matched with the index offset of the mask pixel that put it there.')

prop('S04', 'Interpolated data are means of the valid neighbouring pixels',
 'An interpolated datum is a weighted mean of the up to four pixels surrounding the requested position: the weights are non-negative and sum to one, blank (NaN) pixels have weight zero, and with all four valid the weighting along samples depends only on the sample position and along lines only on the line position, increasing with it. Interpolation succeeds whenever two adjacent surrounding pixels inside the usable area are valid; without interpolation the pixel value is left as read.',
 [I], 'all pixel values including NaN, all positions inside a cell, all 16 patterns of blank neighbours',
 'The tests interpolate a few points; the claim is about every pattern of blank neighbours and every position.',
 ['lib/marc/BilinearInterpolation.cpp', 'lib/marc/NullInterpolation.h'],
 [('edge interpolation', 'BilinearInterpolation::interpolate')],
 'algebraic value-flow analysis (multi-affine normal form per NaN pattern)',
 'Decides the real-number identity, not floating-point rounding.')

prop('F01', 'No FITS library failure is ignored',
 'Every FITS read, write or header operation whose failure would leave the input unread or the output incomplete is followed, on every path and before its result is used or success is reported, by a check of its status that reports the failure as an error.',
 [F, I], 'all failing FITS operations at any point',
 'Tests never make the FITS library fail part-way.',
 ['src/FITS_file.cpp', 'src/FITS_image.cpp', 'src/FITS_image_t.cpp', 'src/FITS_file.h'],
 [('status checking', 'FITS::throw_on_error')],
 'typestate dataflow on the status variable over the control-flow graph',
 'Exhaustive over the call sites of the FITS library in the program.')

prop('F02', 'FITS files are opened, closed and accessed in one place only',
 'Every FITS file MaRC opens or creates is closed exactly once on every path, including after errors, and it cannot be used after that. No part of the program other than the FITS layer touches FITS files, and input files are never opened for writing.',
 [F, H], 'all paths including exceptional ones',
 'A leaked or doubly closed handle has no effect in the short test runs.',
 ['src/FITS_file.h', 'src/FITS_file.cpp', 'src/FITS_image.h'],
 [('owning handle with closing deleter', 'FITS::file')],
 'ownership/effect analysis plus who-may-call query on resolved callees', 'Exhaustive over the program.')

prop('F03', 'Pixel type, BITPIX, transfer type and data-type keyword always agree',
 'For each of the six data types a user can select, the in-memory pixel type of the map, the BITPIX of the output image, the transfer type passed to the FITS library for pixels and header values, and the range used to validate BLANK are those of that one data type. Every data type the input file accepts leads to a map being made with it.',
 [C], 'all six data types',
 'The tests write only some of the data types.',
 ['src/FITS_traits.h', 'src/MapCommand.cpp', 'src/MapCommand_t.cpp', 'src/FITS_image_t.cpp', 'src/map_parameters.cpp', 'src/parse.yy', 'lib/marc/Map_traits.h'],
 [('type traits table', 'FITS::traits'), ('dispatch on BITPIX', 'MapCommand::execute')],
 'table agreement over resolved template instantiations and folded constants', 'Exhaustive over the finite table.')

prop('F04', 'Each FITS header keyword carries the value it documents',
 'Every header value MaRC writes appears under the standard keyword documented for it (for example OBJECT, ORIGIN, BUNIT, BZERO, BSCALE, DATAMIN, DATAMAX, BLANK), is written only when a value exists, and is read back from input files under the same keyword. No value is written under another value\'s keyword; an author, origin, object, blank value or comment that was set, and the extrema of the mapped data, always reach the map file.',
 [I, C], 'all combinations of header values',
 'Tests do not read back most header keywords.',
 ['src/FITS_image.cpp', 'src/FITS_image_t.cpp', 'src/FITS_file.cpp', 'src/map_parameters.cpp', 'src/MapCommand.cpp', 'src/MapCommand_t.cpp', 'src/parse.yy'],
 [('header writers and readers', 'FITS::image, FITS::input_file, MapCommand::execute')],
 'value-flow (provenance) analysis from sources to keyword literals', 'Exhaustive over the header read/write sites.')

prop('F05', 'User-supplied map settings win and are never overwritten',
 'A map setting given by the user in the input file is never replaced by one derived from a source image, and a derived setting is adopted whenever the user gave none. Merging several sources keeps the first value, reports conflicts, and never mixes one setting into another.',
 [I, H], 'all combinations and orders of user and derived settings',
 'Tests merge a couple of fixed parameter sets.',
 ['src/map_parameters.cpp', 'src/map_parameters.h', 'src/MapCommand.cpp', 'src/*ImageFactory.cpp'],
 [('locking and merging', 'map_parameters')],
 'predicated value-flow over the merge code, per setting', 'Exhaustive over settings and over set/unset and user/derived states.')

prop('F06', 'Stored virtual data and the header scaling describe the physical value',
 'For every virtual image plane (cosines, latitude, longitude) the scale and offset recorded in the header are exactly those applied to the stored values, so that offset + scale * stored gives back the physical value the plane is documented to hold, and a data range given by the user limits those physical values. The unit recorded matches the kind of angle stored.',
 [I, C], 'all data types, user ranges and body geometries',
 'Round-trip tests cover only a few data types and no header.',
 ['lib/marc/VirtualImage.h', 'lib/marc/VirtualImage.cpp', 'src/LatitudeImageFactory.cpp', 'src/LongitudeImageFactory.cpp', 'src/MuImageFactory.cpp', 'src/Mu0ImageFactory.cpp', 'src/CosPhaseImageFactory.cpp', 'src/MapCommand_t.cpp'],
 [('forward scaling', 'VirtualImage::read_data'), ('inverse in the header', 'MapCommand::make_map_planes')],
 'algebraic value numbering (rational normal forms) and sibling agreement', 'Decides the real-number identity, not rounding.')

prop('F07', 'Map planes are stored whole, in order and exactly once',
 'The image created for a map has samples by lines pixels and one plane per requested plane (a third dimension if and only if there is more than one). Each requested plane is made from its own source and data range and written once, complete, directly behind the previous one, the first at the beginning of the image; data of another size and writes behind the end are refused, and the last plane is not. A grid has the size of the map.',
 [I, C, H], 'all map sizes and plane counts, all sequences of writes',
 'Tests write at most one or two planes and do not read them back.',
 ['src/FITS_image.cpp', 'src/FITS_image_t.cpp', 'src/FITS_file.cpp', 'src/MapCommand.cpp', 'src/MapCommand_t.cpp'],
 [('plane position', 'FITS::image::write'), ('loop over the planes', 'MapCommand::make_map_planes')],
 'symbolic transition-relation (class invariant) analysis of the image writer and value-flow over the plane loop', 'Decides positions, counts, sizes and provenance as polynomial identities; CFITSIO itself is trusted.')

prop('I01', 'Invalid or non-finite geometry and sizes are refused',
 'Latitudes beyond 90 degrees, longitudes or position angles beyond 360 degrees, non-positive radii, ranges, scales, focal lengths, grid intervals or map sizes, emission-angle limits beyond 90 degrees, flattening outside its range, and values that are not numbers are reported as errors before they influence any map, both in input files and by the library functions they are handed to (ViewingGeometry setters, OblateSpheroid, SimpleCylindrical and Orthographic constructors, validate_*). Valid values, the limits included, are accepted.',
 [I], 'all numeric values including NaN and infinities',
 'The bad-input tests sample one wrong value for some of the settings.',
 ['lib/marc/Validate.h', 'lib/marc/OblateSpheroid.cpp', 'lib/marc/ViewingGeometry.cpp', 'src/parse.yy', 'src/parse_scan.cpp'],
 [('validators', 'validate_latitude, validate_longitude, validate_position_angle, validate_radius'), ('grammar checks', 'parse.yy')],
 'path-condition (guard) analysis of the semantic actions and of the library functions they call; the accepted set of each number is computed over every region its comparisons distinguish',
 'The conditions compare a number with constants, so the accepted set (NaN included) is computed exactly; conditions relating two numbers are decided by satisfiability.')

prop('I03', 'Each input keyword sets the quantity it names, with its documented convention',
 'The value given for an input-file keyword reaches the setting of that name and no other, with the documented conventions: south latitudes, clockwise position angles and the longitude direction opposite to the default are negative, AU ranges are converted to kilometres, and keywords accepted in either order mean the same in both. Every keyword the scanner recognises can be used.',
 [I], 'all input files',
 'Only a few input files are parsed by the tests and most settings have no observable effect in them.',
 ['src/parse.yy', 'src/lexer.ll', 'src/parse_scan.h', 'src/parse_scan.cpp'],
 [('semantic actions', 'parse.yy'), ('keyword table', 'lexer.ll')],
 'value-flow analysis from grammar symbols to settings over the generated parser', 'Exhaustive over grammar productions.')

prop('I04', 'Settings of one map, plane or image never leak into the next',
 'Options given for one map, plane or image have no effect on later ones: each optional setting either takes the value given for that entry or its default (or user-configured default).',
 [H, I], 'all sequences of maps, planes and images in an input file',
 'Tests contain few multi-entry files and never omit a setting after giving it.',
 ['src/parse.yy', 'src/parse_scan.h'], [('resets at entry boundaries', 'parse.yy')],
 'reaching-definitions over the grammar (definite reset before use)', 'Exhaustive over parser state variables.')

prop('I05', 'Text read from input files is neither leaked into nor used after release',
 'Every piece of text the scanner hands to the parser is released exactly once, is never used after its release, and never outlives the statement that consumed it except as a copy.',
 [I, H], 'all input files',
 'Tests do not run under a memory checker.',
 ['src/parse.yy', 'src/lexer.ll'], [('string ownership in semantic actions', 'parse.yy auto_free')],
 'ownership typestate over grammar actions', 'Exhaustive over productions carrying text.')

prop('I06', 'Arithmetic expressions mean what they say',
 'Expressions in input files evaluate with the usual meaning of their operators, functions and constants, including precedence, associativity and unary minus, and an undefined name is reported as an error.',
 [I], 'all expressions',
 'Tests evaluate no more than a few expressions.',
 ['src/parse.yy', 'src/calc.cpp', 'src/calc.h', 'src/lexer.ll'], [('expression grammar', 'parse.yy'), ('function table', 'calc.cpp')],
 'table and grammar analysis (precedence declarations, action terms, function table)', 'Finite grammar, decided completely.')

prop('R01', 'Every run terminates',
 'Plotting, grid drawing, image processing and iterative solving finish for every accepted input: each loop has a strictly advancing counter with a fixed bound, and iterative refinement gives up with an error after a bounded number of steps.',
 [I, C], 'all accepted inputs',
 'Non-termination needs specific intervals, ranges or non-converging functions.',
 ['lib/marc/*', 'src/*'], [('loop bounds', 'all loops'), ('iteration limit', 'root_find')],
 'loop termination analysis (ranking by induction variables with positive step)', 'Exhaustive over loops of the program.',
 na='No sound check in reach: the grid loops advance a floating-point counter by a user-given step, so their termination depends on run-time magnitudes (a step below the spacing of the counter never advances; see DESIGN.md), and a ranking analysis of the integer loops alone would not decide the property. No check was built.')

prop('R02', 'Failures are reported by a non-zero exit status',
 'If an input file cannot be parsed, a map cannot be made, or any error is raised while doing so, the program exits with a non-zero status after reporting it; status zero means every requested map was produced.',
 [I, F], 'all failures at any point',
 'Tests cover parse failures only.',
 ['src/marc.cpp', 'src/MapCommand.cpp', 'src/MapCommand_t.cpp', 'src/command_line.cpp'],
 [('exit paths', 'main')],
 'must-reach path analysis from failure sites to the exit status', 'Exhaustive over failure sources.')

prop('R03', 'Map content is a function of the inputs only',
 'The pixels of a map depend only on the input file, source images and user configuration: computing a pixel reads no clock, environment, random or uninitialised value and changes no state that a later pixel depends on, so pixels may be computed in any order with the same result.',
 [H, I], 'all evaluation orders and repeated runs',
 'Repeated runs agree by luck as long as state happens to be equal.',
 ['lib/marc/*', 'src/*ImageFactory.cpp'], [('const source images', 'SourceImage::read_data')],
 'effect analysis over the call graph of pixel reads', 'Exhaustive over functions reachable from pixel reads.',
 na='Decidable by an effect analysis over the call graph in principle, but no such check was built in the time available; state kept between maps, planes and images in the parser is covered by I04.')

prop('R04', 'No object is used before it is fully initialised',
 'Every value MaRC computes with has been set before it is read: all numeric and pointer state of images, geometries, factories, parameters and the parser is given a defined value when it is created.',
 [I, H], 'all construction paths',
 'Uninitialised values are often zero in short test runs.',
 ['lib/marc/*', 'src/*'], [('constructors and default member initialisers', 'all classes')],
 'definite-initialisation dataflow over constructors and locals', 'Exhaustive over classes and scalar locals.',
 na='Decidable by a definite-initialisation dataflow in principle, but no such check was built in the time available.')

prop('G01', 'Body geometry and photometric cosines follow the exact spheroid formulas',
 'For every oblate spheroid and every surface point, the surface radius, the conversion between planetocentric and planetographic latitude, the eccentricity and radii of curvature, and the cosines of emission, incidence and phase angle are the values of the exact vector geometry (observer at finite range, sun at infinity, normal along the planetographic vertical). The intersection of a line of sight with the body is the point of the body on that line nearest to the observer, given as planetocentric latitude and east longitude from the negative y axis; none is reported when the line misses the body.',
 [I], 'all bodies, latitudes, longitudes, ranges and lines of sight (as real-number formulas, before rounding)',
 'The tests evaluate a few symmetric points (poles, equator, sub-observer point) at which wrong signs, swapped radii or a missing planetographic conversion give the same value.',
 ['lib/marc/OblateSpheroid.cpp', 'lib/marc/Mathematics.h'],
 [('radii and latitude kinds', 'OblateSpheroid::centric_radius, graphic_latitude, centric_latitude'), ('photometry', 'OblateSpheroid::mu, mu0, cos_phase'), ('line of sight', 'OblateSpheroid::ellipse_intersection, quadratic_roots')],
 'extraction of closed formulas by abstract evaluation of the syntax tree, and decision of their identity with the definition by canonical forms (quotients of polynomials modulo the trigonometric and square-root relations)',
 'Identity is decided over the reals; rounding is not addressed (N01).')

prop('G02', 'Every map pixel is given the latitude and longitude its projection defines',
 'For each projection and every map size and setting, the latitude and longitude handed to the plotter for pixel (line k, sample i) are those of the pixel centre under the projection\'s definition: linear between the given bounds (planetographic if asked for) for simple cylindrical, the ellipsoidal Mercator and polar stereographic equations scaled to the map, and, for orthographic, the point of the body facing the observer on the line of sight through the pixel, with the requested centre, scale and position angle. Longitudes increase to the left for prograde and to the right for retrograde bodies (mirrored about the pole accordingly).',
 [I, C], 'all projections, map sizes, bodies, bounds, centres and orientations (as real-number formulas, before rounding)',
 'The tests look at a few pixels (map centre, poles) where wrong signs or offsets cancel; the definition must hold at every pixel for every setting.',
 ['lib/marc/SimpleCylindrical.cpp', 'lib/marc/Mercator.cpp', 'lib/marc/PolarStereographic.cpp', 'lib/marc/Orthographic.cpp'],
 [('projection formulas', '*::plot_map'), ('settings', 'constructors of the projections, Orthographic::map_parameters')],
 'extraction of closed formulas for the plotted coordinates (constructor formulas substituted for members) and decision of their identity with the definition by canonical forms, region by region of the conditions involved',
 'Identity is decided over the reals; for equations left to the root finder the equation and its target are decided, not the numerical solution.')

prop('G03', 'Camera model: image position and surface point are related by the perspective geometry the user gives',
 'For every viewing geometry that is accepted, the image position of a visible surface point is its perspective projection: observer at the given range over the sub-observer point, optical axis through the given (or central) pixel, body centre or the latitude/longitude at the image centre where it was put, north pole at the given position angle (counter-clockwise), scale from km or arc seconds per pixel or focal length times pixel scale; samples grow to the right and lines downwards. The line of sight of an image position is the same relation read backwards, with longitudes counted in the direction of the rotation of the body. Camera distortion is applied to pixel positions, its correction is the inverse of it, and a point counts as visible exactly if its emission cosine exceeds the limit and, when the terminator is respected, it is lit.',
 [I, C], 'all viewing geometries, optical axes, scales and orientations (as real-number formulas, before rounding)',
 'The tests use one or two geometries with the body in the image centre; wrong signs of offsets, axes, position angle or rotation sense need an off-centre, rotated, retrograde or geometrically corrected image.',
 ['lib/marc/ViewingGeometry.cpp', 'lib/marc/GLLGeometricCorrection.cpp', 'lib/marc/NullGeometricCorrection.cpp', 'lib/marc/Geometry.cpp', 'lib/marc/Matrix.h', 'lib/marc/Vector.h'],
 [('both directions', 'ViewingGeometry::latlon2pix, pix2latlon'), ('set-up', 'ViewingGeometry::finalize_setup, rot_matrices'), ('distortion', 'GeometricCorrection::image_to_object, object_to_image')],
 'extraction of the composed formulas (setters, set-up, projection) by abstract evaluation of the syntax tree, compared with an independent vector definition of the camera; settings, rotations and distortion by canonical form, visibility by implication, the composed camera by refutation at sample settings covering each combination of inputs',
 'Settings, rotations, visibility and the order of the steps are decided; agreement of the composed camera is refuted, not proved, from sample settings of the extracted formula.')

prop('N01', 'Projection and camera geometry are numerically accurate',
 'The latitude and longitude computed for a map pixel, and the image pixel computed for a latitude and longitude, agree with the exact projection and viewing geometry to within a fraction of a pixel.',
 [I], 'all geometries', 'Only sampled points are compared.',
 ['lib/marc/ViewingGeometry.cpp', 'lib/marc/Orthographic.cpp', 'lib/marc/PolarStereographic.cpp', 'lib/marc/Mercator.cpp'],
 [('projection formulas', '*::plot_map')],
 na='Numerical agreement of floating-point formulas with real-valued geometry is a statement about runtime values; no static argument available here bounds it.')
prop('N02', 'Root finding returns a root to the requested accuracy',
 'Whenever the iterative solver returns, the function value at the returned point equals the target to within the documented tolerance.',
 [I], 'all functions and starting points', 'Only a few functions are solved.',
 ['lib/marc/root_find.cpp'], [('convergence test', 'root_find')],
 na='Depends on the runtime values of an arbitrary function; no static argument available here bounds them.')

def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    import importlib
    implemented = set()
    rd = os.path.join(here, 'analysis', 'rules')
    if os.path.isdir(rd):
        implemented = {f[:-3].upper() for f in os.listdir(rd) if f.endswith('.py') and f[0] != '_'}
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
    checks, na = [], []
    for p in P:
        if p['id'] in implemented:
            checks.append(dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'],
                               thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p['id'],
                               technique='static analysis: ' + p['_t'], level='other', level_note=p['_n']))
        else:
            na.append(dict(property=p['id'], reason=p['_na'] or 'Check not built yet.'))
    json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na),
              open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
if __name__ == '__main__':
    main()
