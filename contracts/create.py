"""Contracts: building a model from a velocity model (C11, C13, C21).

The steps of the sampling are trusted here for what they leave alone; what
they produce is judged by the last step, validate, which is under contract.
"""
from pyded.spec import *

FIELDS = {
    'TauP_Create': {'input_filename': 'str', 'output_filename': 'str',
                    'debug': 'bool', 'min_delta_p': 'real',
                    'max_delta_p': 'real', 'max_depth_interval': 'real',
                    'max_range_interval': 'real', 'max_interp_error': 'real',
                    'allow_inner_core_s': 'bool',
                    'vMod': 'VelocityModel', 'tMod': 'TauModel',
                    'sMod': 'SlownessModel'},
}


class FindCriticalPoints(Contract):
    target = 'SlownessModel.findCriticalPoints'
    args = {'self': 'SlownessModel'}
    modifies = ['self.criticalDepths', 'self.highSlownessLayerDepthsP',
                'self.highSlownessLayerDepthsS', 'self.fluidLayerDepths',
                'self.PLayers', 'self.SLayers', 'SlownessLayer.*',
                'CriticalDepth.*', 'DepthRange.*']
    allocates = True
    trusted = True
    props = ['C11']

    def may_raise_SlownessModelError():
        return True

    def ensures_closed(self):
        return (zones_closed(self.highSlownessLayerDepthsP)
                and zones_closed(self.highSlownessLayerDepthsS)
                and zones_closed(self.fluidLayerDepths))


class CoarseSample(Contract):
    target = 'SlownessModel.coarseSample'
    args = {'self': 'SlownessModel'}
    modifies = ['self.PLayers', 'self.SLayers', 'SlownessLayer.*',
                'CriticalDepth.*']
    allocates = True
    trusted = True
    props = ['C11']

    def may_raise_SlownessModelError():
        return True


class RayParamIncCheck(Contract):
    target = 'SlownessModel.rayParamIncCheck'
    args = {'self': 'SlownessModel'}
    modifies = ['self.PLayers', 'self.SLayers', 'SlownessLayer.*',
                'CriticalDepth.*']
    allocates = True
    trusted = True
    props = ['C11']

    def may_raise_SlownessModelError():
        return True


class DepthIncCheck(Contract):
    target = 'SlownessModel.depthIncCheck'
    args = {'self': 'SlownessModel'}
    modifies = ['self.PLayers', 'self.SLayers', 'SlownessLayer.*',
                'CriticalDepth.*']
    allocates = True
    trusted = True
    props = ['C11']

    def may_raise_SlownessModelError():
        return True


class DistanceCheck(Contract):
    target = 'SlownessModel.distanceCheck'
    args = {'self': 'SlownessModel'}
    modifies = ['self.PLayers', 'self.SLayers', 'SlownessLayer.*',
                'CriticalDepth.*']
    allocates = True
    trusted = True
    props = ['C11']

    def may_raise_SlownessModelError():
        return True

    def ensures_layers(self):
        """Trusted; checked boundedly (C13, C23)."""
        return (model_layers_ok(self, self.PLayers)
                and model_layers_ok(self, self.SLayers))

    def ensures_depths(self):
        return (forall(0, len(self.criticalDepths), lambda i:
                       0 <= self.criticalDepths[i].depth
                       and self.criticalDepths[i].depth
                       <= self.radiusOfEarth)
                and forall(0, len(self.criticalDepths), lambda i:
                           forall(0, i, lambda j: not same(
                               self.criticalDepths[i],
                               self.criticalDepths[j]))))


class CreateSample(Contract):
    target = 'SlownessModel.createSample'
    args = {'self': 'SlownessModel'}
    modifies = ['self.radiusOfEarth', 'self.criticalDepths',
                'self.highSlownessLayerDepthsP',
                'self.highSlownessLayerDepthsS', 'self.fluidLayerDepths',
                'self.PLayers', 'self.SLayers', 'SlownessLayer.*',
                'CriticalDepth.*', 'DepthRange.*']
    allocates = True
    props = ['C11', 'C13']

    def may_raise_IndexError(self):
        return len(self.vMod.layers) == 0

    def may_raise_SlownessModelError():
        return True

    def ensures_consistent(self, old):
        """Inconsistent models are refused."""
        return model_ok(old.self.vMod)

    def ensures_solid(self, old):
        return old.self.vMod.layers[0].topSVelocity != 0

    def ensures_cover(self):
        """Both samplings are without gap or overlap and continuous."""
        return (s_contiguous_from(self.PLayers, self.radiusOfEarth, 0)
                and s_contiguous_from(self.SLayers, self.radiusOfEarth, 0))

    def ensures_zones(self):
        return (zones_ok(self.highSlownessLayerDepthsP)
                and zones_ok(self.highSlownessLayerDepthsS)
                and zones_ok(self.fluidLayerDepths))

    def ensures_radius(self, old):
        return self.radiusOfEarth == old.self.vMod.radiusOfEarth


class SlownessModelInit(Contract):
    target = 'SlownessModel.__init__'
    args = {'self': 'SlownessModel', 'vMod': 'VelocityModel',
            'minDeltaP': 'real', 'maxDeltaP': 'real',
            'maxDepthInterval': 'real', 'maxRangeInterval': 'real',
            'maxInterpError': 'real', 'allowInnerCoreS': 'bool',
            'slowness_tolerance': 'real'}
    modifies = ['self.*', 'SlownessLayer.*', 'CriticalDepth.*',
                'DepthRange.*']
    allocates = True
    props = ['C11', 'C13', 'C21']

    def may_raise_IndexError(vMod):
        return len(vMod.layers) == 0

    def may_raise_SlownessModelError():
        return True

    def ensures_consistent(vMod, old):
        """Inconsistent models are refused."""
        return model_ok(old.vMod)

    def ensures_kept(self, vMod, minDeltaP, maxDeltaP, maxDepthInterval,
                     maxRangeInterval, maxInterpError, allowInnerCoreS):
        return (same(self.vMod, vMod) and self.minDeltaP == minDeltaP
                and self.maxDeltaP == maxDeltaP
                and self.maxDepthInterval == maxDepthInterval
                and self.maxRangeInterval == maxRangeInterval
                and self.maxInterpError == maxInterpError
                and iff(self.allowInnerCoreS, allowInnerCoreS))

    def ensures_cover(self):
        return (s_contiguous_from(self.PLayers, self.radiusOfEarth, 0)
                and s_contiguous_from(self.SLayers, self.radiusOfEarth, 0))


class TauModelInit(Contract):
    target = 'TauModel.__init__'
    args = {'self': 'TauModel', 'sMod': 'SlownessModel'}
    modifies = ['self.*']
    allocates = True
    trusted = True
    props = ['C21']

    def may_raise_SlownessModelError():
        return True

    def may_raise_TauModelError():
        return True

    def ensures_kept(self, sMod):
        return same(self.sMod, sMod)


class LoadVMod(Contract):
    target = 'TauP_Create.loadVMod'
    args = {'self': 'TauP_Create'}
    result = 'VelocityModel'
    modifies = ['self.vMod']
    allocates = True
    fresh = True
    merge = False
    props = ['C12', 'C21']

    def may_raise_NotImplementedError():
        return True

    def may_raise_TauPException():
        return True

    def may_raise_ValueError():
        return True

    def may_raise_IndexError():
        return True

    def ensures_kept(self, result):
        return same(self.vMod, result)

    def ensures_layers(self, result):
        """The layers of the velocity file."""
        return (len(result.layers) == layers_before(
                self.input_filename, line_count(self.input_filename))
                and layers_of(self.input_filename, result.layers))


class CreateTauModel(Contract):
    target = 'TauP_Create.createTauModel'
    args = {'self': 'TauP_Create', 'vMod': 'VelocityModel'}
    result = 'TauModel'
    modifies = ['self.sMod', 'SlownessLayer.*', 'CriticalDepth.*',
                'DepthRange.*']
    allocates = True
    fresh = True
    props = ['C11', 'C21']

    def may_raise_IndexError(vMod):
        return len(vMod.layers) == 0

    def may_raise_SlownessModelError():
        return True

    def may_raise_TauModelError():
        return True

    def may_raise_Exception():
        return True

    def ensures_consistent(vMod, old):
        """Inconsistent models are refused."""
        return model_ok(old.vMod)

    def ensures_of(self, vMod, result):
        """A model of that velocity model, with the settings given."""
        m = result.sMod
        return (same(m.vMod, vMod) and m.minDeltaP == self.min_delta_p
                and m.maxDeltaP == self.max_delta_p
                and m.maxDepthInterval == self.max_depth_interval
                and m.maxInterpError == self.max_interp_error
                and iff(m.allowInnerCoreS, self.allow_inner_core_s))


class CreateRun(Contract):
    target = 'TauP_Create.run'
    args = {'self': 'TauP_Create'}
    modifies = ['self.sMod', 'self.tMod', 'files', 'SlownessLayer.*',
                'CriticalDepth.*', 'DepthRange.*']
    allocates = True
    props = ['C11', 'C21']

    def may_raise_IndexError(self):
        return len(self.vMod.layers) == 0

    def may_raise_SlownessModelError():
        return True

    def may_raise_TauModelError():
        return True

    def may_raise_Exception():
        return True

    def ensures_written(self):
        """The model is written to the file asked for."""
        return same(written_to(self.output_filename), self.tMod)

    def ensures_of(self):
        return (same(self.tMod.sMod.vMod, self.vMod)
                and self.tMod.sMod.minDeltaP == self.min_delta_p
                and self.tMod.sMod.maxDeltaP == self.max_delta_p)


class CreateModel(Contract):
    target = 'tau.create_taup_model'
    args = {'model_name': 'str', 'output_dir': 'str', 'input_dir': 'str'}
    modifies = ['files', 'SlownessLayer.*', 'CriticalDepth.*',
                'DepthRange.*']
    allocates = True
    inline = ['TauP_Create.__init__']
    props = ['C21']

    def may_raise_NotImplementedError():
        return True

    def may_raise_TauPException():
        return True

    def may_raise_ValueError():
        return True

    def may_raise_IndexError():
        return True

    def may_raise_SlownessModelError():
        return True

    def may_raise_TauModelError():
        return True

    def may_raise_Exception():
        return True

    def ensures_written(model_name, output_dir):
        """The file for the name holds a model built with the defaults."""
        return not every_text(lambda x: not (
            os.path.basename(x) == stored(model_name) + ending()
            and x == os.path.join(output_dir, os.path.basename(x))
            and written_to(x).sMod.minDeltaP == 0.1
            and written_to(x).sMod.maxDeltaP == 11))
