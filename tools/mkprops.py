# Generates /verif/properties.jsonl (run once by hand; kept for maintainability).
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if observe: d['anchors']['observe_at'] = observe
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d['anchors']['hook_needed'] = None
    assert len(title) <= 80, title
    P.append(d)
T = 'taupy/'
prop('C01', 'Arrivals are exactly the crossings of the travel-time curve',
 'For every phase and every distance, the arrivals reported are exactly the places where the phase\'s sampled distance curve crosses one of the equivalent distances (distance + 360k or 360(k+1) - distance degrees): one arrival per bracketing pair of neighbouring samples, never for a pair inside a shadow zone, none missing and none listed twice. Time and ray parameter of an arrival are the linear interpolation of the two bracketing samples, so they lie between the values of those samples.',
 ['inputs'], 'every sampled phase curve (any number of samples, any shape including triplications, shadow zones and several laps) and every requested distance',
 'The tests compare a few fixed phases, depths and distances of two models with reference tables; triplications, shadow zones, exact hits on a sample, several laps and the 0/180 degree special cases are not enumerable.',
 [T+'SeismicPhase.py'], [('calcTime', T+'SeismicPhase.py:SeismicPhase.calcTime'), ('linearInterpArrival', T+'SeismicPhase.py:SeismicPhase.linearInterpArrival')], ['TauPyModel.get_travel_times'])
prop('C02', 'Equivalent distances give identical arrivals',
 'Requests for distances that describe the same pair of points on the sphere - a negative distance, a distance increased by whole circles, or 360 degrees minus the distance - return the same arrivals (phases, times, ray parameters and path distances). The distance an arrival reports modulo the circle always lies between 0 and 180 degrees and equals the requested distance folded into that range.',
 ['inputs'], 'every real distance d and integer k: d, -d, d+360k, 360-d, on every phase curve',
 'Tests only use distances between 0 and 180 degrees.',
 [T+'SeismicPhase.py', T+'Arrival.py'], [('folding of the distance', T+'SeismicPhase.py:SeismicPhase.calcTime'), ('getModuloDistDeg', T+'Arrival.py:Arrival.getModuloDistDeg')], ['TauPyModel.get_travel_times', 'Arrival.getModuloDistDeg'])
prop('C03', 'Result lists every requested phase once, ordered by arrival time',
 'The travel times returned for a list of phases are exactly the union of what each phase gives on its own, each phase counted once no matter how often or through which shorthand it is requested, ordered by increasing arrival time. The shorthands (ttp, tts, ttp+, tts+, ttbasic, ttall; any capitalisation) expand to fixed phase sets that are nested: ttp within ttp+ within ttbasic within ttall, tts within tts+ within ttbasic, and any other name stands for itself.',
 ['inputs', 'configurations'], 'every phase list (with duplicates, shorthands and ordinary names in any order), depth and distance',
 'Tests request a handful of fixed lists; the order of results and the treatment of duplicated or overlapping requests is not checked for arbitrary lists.',
 [T+'TauP_Time.py', T+'tau.py'], [('getPhaseNames', T+'TauP_Time.py:getPhaseNames'), ('parsePhaseList', T+'TauP_Time.py:parsePhaseList'), ('sortArrivals', T+'TauP_Time.py:TauP_Time.sortArrivals'), ('calcTime', T+'TauP_Time.py:TauP_Time.calcTime')], ['TauPyModel.get_travel_times'])
prop('C04', 'Queries leave the model unchanged: answers do not depend on history',
 'Asking for travel times, pierce points or ray paths, correcting a model for a source depth, and splitting layers never change the earth model they work on or any other model or default shared between models. Therefore any sequence of earlier queries, for whatever depths, distances and phases, leaves the answer to every later query the same as on a freshly loaded model.',
 ['histories', 'inputs'], 'every sequence of queries (depths, distances, phase lists, kind of query) on one or several models',
 'Tests issue one query per model object and never compare with a fresh one; in-place edits of shared lists and objects only show after particular histories.',
 [T+'TauModel.py', T+'SlownessModel.py', T+'TauBranch.py', T+'SeismicPhase.py'], [('splitBranch', T+'TauModel.py:TauModel.splitBranch'), ('splitLayer', T+'SlownessModel.py:SlownessModel.splitLayer'), ('fixOtherLayers', T+'SlownessModel.py:SlownessModel.fixOtherLayers'), ('insert/shiftBranch/difference', T+'TauBranch.py')], ['TauPyModel'])
prop('C05', 'Source depth correction conserves the earth model',
 'Correcting a model for a source depth yields a model with a boundary exactly at that depth, in which the two parts of the divided branch together have, for every ray parameter of the original model and for both wave types, the travel time, distance and tau of the original branch, and every other branch keeps its values at the original ray parameters. Moho, core-mantle and inner-core boundaries stay at the same depths, the original ray parameters are kept, and the only ray parameters added are the P and S slownesses at the source depth.',
 ['inputs', 'configurations'], 'every valid earth model and every source depth from the surface to the centre, including depths on boundaries, within a hair of a sample, in the fluid core and in low velocity zones',
 'Tests use a few source depths and only compare the final arrivals with tables.',
 [T+'TauModel.py', T+'TauBranch.py', T+'SlownessModel.py'], [('splitBranch', T+'TauModel.py:TauModel.splitBranch'), ('difference', T+'TauBranch.py:TauBranch.difference'), ('insert', T+'TauBranch.py:TauBranch.insert'), ('splitLayer', T+'SlownessModel.py:SlownessModel.splitLayer')], ['TauModel.depthCorrect'])
prop('C06', 'Every branch stores tau = time - p * distance with consistent samples',
 'In every tau model - freshly built or corrected for a source depth - each branch holds, for each sampled ray parameter p, a time, a distance and a tau with tau = time - p * distance and time, distance and tau non-negative, all zero for rays that cannot enter the branch. The sampled ray parameters decrease strictly, end with the vertical ray p = 0, and every branch has one sample per ray parameter.',
 ['inputs', 'configurations'], 'every valid earth model, sampling setting, source depth, branch, wave type and sampled ray parameter',
 'The tests look at a couple of stored arrays of one model, not at every branch and sample of arbitrary models and depths.',
 [T+'TauBranch.py', T+'TauModel.py'], [('createBranch', T+'TauBranch.py:TauBranch.createBranch'), ('calcTimeDist', T+'TauBranch.py:TauBranch.calcTimeDist'), ('insert', T+'TauBranch.py:TauBranch.insert'), ('difference', T+'TauBranch.py:TauBranch.difference'), ('calcTauIncFrom', T+'TauModel.py:TauModel.calcTauIncFrom')], ['TauModel'])
prop('C07', 'A phase\'s time and distance are the sums over the legs of its path',
 'For every sampled ray parameter of a phase, its travel time and distance are the sums of the times and distances of the branches along its path, each counted once per traversal with the wave type of that traversal. Diffracted and head waves additionally extend from that point with constant slowness up to 60 (diffracted) or 20 (head wave) degrees, surface waves given as a velocity in km/s travel the surface distance at exactly that velocity, and a phase whose ray parameter range is empty has no samples.',
 ['inputs', 'configurations'], 'every earth model, source depth and phase name, every sampled ray parameter of the phase',
 'Tests only see interpolated arrivals of a few phases; the sum over branches with multiplicity is never checked sample by sample.',
 [T+'SeismicPhase.py'], [('sumBranches', T+'SeismicPhase.py:SeismicPhase.sumBranches')], ['SeismicPhase.dist', 'SeismicPhase.time', 'TauPyModel.get_travel_times'])
prop('C08', 'A phase path is a connected route from the source to the surface',
 'For a source above the core-mantle boundary, the sequence of branches built for a phase name that has arrivals starts at the source (in the branch below it when leaving downward, above it when leaving upward), moves from each branch only to the same or a neighbouring branch in the direction of travel, and ends in the uppermost branch going up. It turns downward only by reflecting at the surface or at a boundary and upward only by turning or reflecting, in the places the phase name names: P and S legs stay in the mantle and crust, K legs in the outer core, I and J legs in the inner core, with wave type P for P, K, I and S for S, J legs outside the fluid.',
 ['inputs', 'configurations'], 'every well-formed phase name, earth model (any number of branches, any moho/cmb/iocb branch) and source depth',
 'Tests check two or three phase names on two models; the route depends on the model\'s branch numbers and the source branch in combination with the name.',
 [T+'SeismicPhase.py'], [('parseName', T+'SeismicPhase.py:SeismicPhase.parseName'), ('addToBranch', T+'SeismicPhase.py:SeismicPhase.addToBranch')], ['SeismicPhase.branchSeq', 'TauPyModel.get_pierce_points'])
prop('C09', 'Phase names are split into legs without loss, or rejected cleanly',
 'Splitting a phase name either yields legs that are each a valid leg symbol (or a boundary depth), whose concatenation is exactly the name, followed by the end marker, or reports an invalid phase name with the library\'s phase error; no character is dropped, repeated or reordered, and no name crashes or hangs it. A request that contains an unrecognisable phase still returns the arrivals of the other phases.',
 ['inputs'], 'every string over the characters used in phase names',
 'The tests split a dozen names; the set of names is infinite and errors hide in combinations such as numeric depths followed by particular legs.',
 [T+'SeismicPhase.py', T+'TauP_Time.py'], [('legPuller', T+'SeismicPhase.py:legPuller'), ('recalcPhases', T+'TauP_Time.py:TauP_Time.recalcPhases')], ['SeismicPhase.legs', 'TauPyModel.get_travel_times'])
prop('C10', 'Velocity lookup finds the containing layer and interpolates linearly',
 'For every depth inside the model, the velocity or density looked up is that of the layer containing the depth, interpolated linearly between its top and bottom values; exactly on a layer boundary the "above" lookup uses the bottom of the upper layer and the "below" lookup the top of the lower layer. Depths not covered by any layer and unknown material properties are reported as errors.',
 ['inputs'], 'every layered model, depth and material property',
 'Tests evaluate a few depths of one model.',
 [T+'VelocityModel.py', T+'VelocityLayer.py'], [('layerNumberAbove/Below', T+'VelocityModel.py:VelocityModel.layerNumberAbove'), ('evaluateAbove/Below', T+'VelocityModel.py:VelocityModel.evaluateAbove'), ('evaluateAt/AtTop/AtBottom', T+'VelocityLayer.py:VelocityLayer.evaluateAt')], ['VelocityModel'])
prop('C11', 'Velocity model validation accepts exactly the consistent models',
 'Validation accepts a velocity model if and only if its radii and boundary depths are ordered and have the right signs, its layers join without gaps and have non-zero thickness, all P velocities are positive and all S velocities non-negative, and no layer\'s S (or P) velocity is zero at only one of its ends. Inconsistent models are refused before any slowness model is built from them.',
 ['inputs'], 'every velocity model with at least one layer and any layer values',
 'Tests validate only the shipped, correct models, so acceptance of a defective layer in an arbitrary position is never exercised.',
 [T+'VelocityModel.py', T+'SlownessModel.py'], [('validate', T+'VelocityModel.py:VelocityModel.validate'), ('createSample', T+'SlownessModel.py:SlownessModel.createSample')], ['VelocityModel.validate', 'SlownessModel'])
prop('C12', 'Reading a tvel file reproduces the layers it describes',
 'Reading a tvel file gives one layer for each pair of consecutive sample lines at different depths, in order and numbered from zero, with the top and bottom depth, P and S velocity and density of those lines; pairs at the same depth become discontinuities instead of layers, and comments and blank lines are ignored. The planet\'s radius is the last depth; a sample whose S velocity exceeds its P velocity, or a line without density, is refused.',
 ['inputs'], 'every sequence of sample lines, with comments, blank lines and repeated depths anywhere',
 'Tests read two shipped files and check a few numbers.',
 [T+'VelocityModel.py'], [('readTVelFile', T+'VelocityModel.py:VelocityModel.readTVelFile')], ['VelocityModel.readVelocityFile'])
prop('C13', 'The slowness sampling covers the earth without gaps, within its limits',
 'For every valid velocity model and sampling setting, the P and the S slowness layers run from the surface to the centre without gap or overlap, slowness being continuous from each layer to the next, and every layer boundary carries the slowness of the velocity model at that depth, every velocity model boundary being a layer boundary. No layer spans more than the configured slowness step or depth interval, and refining the sampling by adding a slowness only divides layers at that slowness and changes nothing else.',
 ['inputs', 'configurations'], 'every valid velocity model (with fluid layers, low velocity zones, discontinuities) and every setting of the sampling limits',
 'Tests build two models with default settings and compare layer counts.',
 [T+'SlownessModel.py'], [('coarseSample', T+'SlownessModel.py:SlownessModel.coarseSample'), ('addSlowness', T+'SlownessModel.py:SlownessModel.addSlowness'), ('rayParamIncCheck', T+'SlownessModel.py:SlownessModel.rayParamIncCheck'), ('depthIncCheck', T+'SlownessModel.py:SlownessModel.depthIncCheck'), ('validate', T+'SlownessModel.py:SlownessModel.validate')], ['SlownessModel.PLayers', 'SlownessModel.SLayers'])
prop('C14', 'Slowness layer lookup returns a layer containing the depth, on the right side',
 'For every depth between the top and the bottom of the model, the slowness layer lookups return a layer that contains the depth; if the depth is on a boundary, the "above" lookup returns the layer ending there from above and the "below" lookup the layer starting there, with zero-thickness layers (total reflections) skipped. Depths outside the model are refused with the slowness model error, and the search always terminates.',
 ['inputs'], 'every contiguous stack of slowness layers (including zero-thickness layers) of any size and every depth',
 'Tests look up a few depths of one model; the binary search depends on the number of layers and on where boundaries fall.',
 [T+'SlownessModel.py'], [('layerNumForDepth', T+'SlownessModel.py:SlownessModel.layerNumForDepth'), ('layerNumberAbove', T+'SlownessModel.py:SlownessModel.layerNumberAbove'), ('layerNumberBelow', T+'SlownessModel.py:SlownessModel.layerNumberBelow')], ['SlownessModel'])
prop('C15', 'Depth and slowness conversions are inverse to each other',
 'Within a layer, converting a depth to a slowness and back returns the depth, and converting a slowness to a depth and back returns the slowness; the depth found for a slowness always lies inside the layer searched, and the values at the layer\'s ends are hit exactly. A slowness that does not occur between the given depths, a zero velocity, or a velocity gradient that exactly balances the curvature is reported as an error.',
 ['inputs'], 'every layer (increasing, decreasing or constant slowness, zero thickness, reaching the centre), every depth or slowness',
 'Tests evaluate one layer and one or two depths.',
 [T+'SlownessLayer.py', T+'SlownessModel.py'], [('bullenDepthFor', T+'SlownessLayer.py:SlownessLayer.bullenDepthFor'), ('evaluateAtBullen', T+'SlownessLayer.py:SlownessLayer.evaluateAtBullen'), ('findDepth', T+'SlownessModel.py:SlownessModel.findDepth'), ('interpolate/toSlowness', T+'SlownessModel.py:SlownessModel.interpolate')], ['SlownessLayer', 'SlownessModel.findDepth'])
prop('C16', 'Moho, core-mantle and inner-core boundaries are the closest discontinuities',
 'The moho is the discontinuity closest to its nominal depth among those within 65 km of it (the surface if there is none), the core-mantle boundary the discontinuity closest to its nominal depth, and the inner-core boundary the fluid-to-solid discontinuity closest to its nominal depth (the centre if there is none or it coincides with the core-mantle boundary). The reported set of discontinuities is exactly the surface, every depth where P or S velocity jumps, and the bottom; the call that adjusts the depths reports a change if and only if one of the three depths did not match.',
 ['inputs'], 'every layered velocity model and every nominal depth',
 'Tests check the two shipped earth models only.',
 [T+'VelocityModel.py', T+'TauModel.py'], [('fixDisconDepths', T+'VelocityModel.py:VelocityModel.fixDisconDepths'), ('getDisconDepths', T+'VelocityModel.py:VelocityModel.getDisconDepths')], ['VelocityModel.readVelocityFile', 'TauModel.mohoDepth'])
prop('C17', 'Distances from coordinates obey the spherical great-circle law',
 'The distance computed from source and receiver coordinates is the great-circle angle between them: between 0 and 180 degrees for every pair of points, symmetric, 0 for coincident and 180 for antipodal points, unchanged by adding whole turns to a longitude or by shifting both longitudes, and never an error. Travel times requested with coordinates equal those requested with that distance.',
 ['inputs'], 'every pair of latitudes in [-90, 90] and longitudes',
 'Tests use one pair of coordinates; rounding at coincident or antipodal points needs particular values.',
 [T+'TauP_Time.py'], [('great_circle_dist', T+'TauP_Time.py:great_circle_dist'), ('run', T+'TauP_Time.py:TauP_Time.run')], ['TauPyModel.get_travel_times(coordinate_list=...)'])
prop('C18', 'Pierce points run from the source to the arrival along the path',
 'For every arrival, its pierce points start at the source (zero time and distance, source depth), have non-decreasing time and distance, lie on branch boundaries or at turning points inside the branch being left, follow one another through neighbouring branches in the order of the phase path, and end at the surface with the arrival\'s time and distance. All of them carry the arrival\'s ray parameter.',
 ['inputs', 'configurations'], 'every model, source depth, distance, phase and arrival',
 'The tests never call the pierce point interface (it raised a TypeError).',
 [T+'SeismicPhase.py', T+'TauP_Pierce.py'], [('calcPierceFromArrival', T+'SeismicPhase.py:SeismicPhase.calcPierceFromArrival'), ('handleHeadOrDiffractedWave', T+'SeismicPhase.py:SeismicPhase.handleHeadOrDiffractedWave')], ['TauPyModel.get_pierce_points', 'Arrival.getPierce'])
prop('C19', 'Ray increments through a layer are right, non-negative or refused',
 'For every slowness layer and every ray parameter that can cross it, the time and distance increments are non-negative, zero for a layer without thickness, and equal the closed-form result of the layer\'s slowness law; a vertical ray gains no distance, and dividing a layer at an interior depth of its own law leaves the total increments unchanged. A ray that turns above or inside the layer, or a negative ray parameter, is refused with an error.',
 ['inputs'], 'every layer (constant velocity, general, thin, at the centre), every ray parameter',
 'Tests evaluate one or two layers and ray parameters.',
 [T+'SlownessLayer.py', T+'SlownessModel.py'], [('bullenRadialSlowness', T+'SlownessLayer.py:SlownessLayer.bullenRadialSlowness'), ('layerTimeDist', T+'SlownessModel.py:SlownessModel.layerTimeDist'), ('approxDistance', T+'SlownessModel.py:SlownessModel.approxDistance')], ['SlownessModel.layerTimeDist'])
prop('C20', 'Take-off and incidence angles satisfy Snell\'s law',
 'The take-off angle of an arrival has sine equal to ray parameter times the velocity at the source divided by the source\'s radius, taken below the source for rays leaving downward and above it for rays leaving upward, where the angle is negative; the incidence angle has sine equal to ray parameter times the surface velocity of the last leg\'s wave type divided by the radius. The first leg\'s wave type selects the source velocity, both angles are between -90 and 90 degrees, and surface waves have zero angles.',
 ['inputs', 'configurations'], 'every model, source depth (also on discontinuities), phase and arrival',
 'Tests check the angles of a few arrivals against a table.',
 [T+'SeismicPhase.py'], [('linearInterpArrival', T+'SeismicPhase.py:SeismicPhase.linearInterpArrival')], ['Arrival.takeoffAngle', 'Arrival.incidentAngle'])
prop('C21', 'Saving and loading a model returns an equivalent model',
 'A model built from a velocity file and written out gives, when loaded by the name under which it was created or by the path of the written file, the same travel times, pierce points and ray paths as the model that was written. A name for which no model was created is not silently mapped to another model.',
 ['inputs', 'histories'], 'every model name, file location and model content',
 'Tests load only the two shipped models.',
 [T+'TauModelLoader.py', T+'utils.py', T+'TauP_Create.py', T+'TauModel.py', T+'tau.py'], [('load', T+'TauModelLoader.py:load'), ('_get_model_filename', T+'utils.py:_get_model_filename'), ('writeModel', T+'TauModel.py:TauModel.writeModel'), ('TauP_Create.run', T+'TauP_Create.py:TauP_Create.run')], ['TauPyModel'])
prop('C22', 'Ray paths trace one ray from source to surface without backtracking',
 'For every arrival, the ray path starts at the source depth with zero time and distance, never decreases in time or distance, moves from layer to layer only to adjoining depths, and ends at the surface; its increments are those of the crossed layers for the arrival\'s ray parameter, and diffracted and head waves include the segment along their boundary. Asking for the ray paths returns the same arrivals as asking for travel times.',
 ['inputs', 'configurations'], 'every model, source depth, distance, phase and arrival',
 'The tests never call the ray path interface (it raised a TypeError).',
 [T+'SeismicPhase.py', T+'TauBranch.py', T+'TauP_Path.py'], [('calcPathFromArrival', T+'SeismicPhase.py:SeismicPhase.calcPathFromArrival'), ('path', T+'TauBranch.py:TauBranch.path')], ['TauPyModel.get_ray_paths', 'Arrival.getPath'])
prop('C23', 'Critical depths, fluid and high-slowness zones are found exactly',
 'The critical depths of a slowness model are, in order, the surface, every depth where P or S slowness jumps or changes from increasing to decreasing with depth or back, and the centre; the fluid zones are exactly the maximal depth ranges with zero S velocity, and the high-slowness zones exactly the depth ranges no ray can turn in because slowness there exceeds a smaller slowness met above. Every sample layer belonging to a critical depth starts at that depth, also after a layer has been divided for a source.',
 ['inputs', 'configurations'], 'every valid velocity model, with fluid layers and low velocity zones anywhere, and every source depth',
 'The shipped models have one fluid zone and one high-slowness zone each, always in the same place.',
 [T+'SlownessModel.py'], [('findCriticalPoints', T+'SlownessModel.py:SlownessModel.findCriticalPoints'), ('depthInFluid', T+'SlownessModel.py:SlownessModel.depthInFluid'), ('depthInHighSlowness', T+'SlownessModel.py:SlownessModel.depthInHighSlowness'), ('fixCriticalPoints/fixCriticalDepths', T+'SlownessModel.py:SlownessModel.fixCriticalPoints')], ['SlownessModel.criticalDepths', 'SlownessModel.fluidLayerDepths'])
prop('C24', 'Every sampled ray of a phase can travel every leg of its path',
 'For every phase that has arrivals from a source above the core-mantle boundary, each of its sampled ray parameters can enter every branch on its path with the wave type of that leg, passes through the branches it is transmitted through, turns within the branches it is said to turn in, and is not forced to turn above a boundary it reflects from. The range of ray parameters is as large as these conditions allow: no admissible sampled ray is left out, and a phase none of whose rays satisfies them has no arrivals.',
 ['inputs', 'configurations'], 'every earth model, source depth and well-formed phase name, every sampled ray parameter',
 'Tests check the extreme ray parameters of two or three phases.',
 [T+'SeismicPhase.py'], [('addToBranch', T+'SeismicPhase.py:SeismicPhase.addToBranch'), ('phaseConversion', T+'SeismicPhase.py:SeismicPhase.phaseConversion'), ('parseName', T+'SeismicPhase.py:SeismicPhase.parseName'), ('sumBranches', T+'SeismicPhase.py:SeismicPhase.sumBranches')], ['SeismicPhase.rayParams', 'SeismicPhase.minRayParam'])
open('/verif/properties.jsonl', 'w').write('\n'.join(json.dumps(p) for p in P) + '\n')
print(len(P))
