"""Contracts: tau models (C04, C05, C08, C16)."""
from pyded.spec import *

FIELDS = {
    'TauModel': {'sourceDepth': 'real', 'radiusOfEarth': 'real',
                 'sourceBranch': 'int', 'noDisconDepths': 'list:real',
                 'rayParams': 'list:real',
                 'tauBranches': 'list:list:TauBranch',
                 'sMod': 'SlownessModel', 'mohoBranch': 'int',
                 'cmbBranch': 'int', 'iocbBranch': 'int',
                 'mohoDepth': 'real', 'cmbDepth': 'real',
                 'iocbDepth': 'real', 'spherical': 'bool', 'debug': 'bool'},
}


def two_waves(m):
    """A list of P branches and one of S branches, at least one each."""
    return (len(m.tauBranches) == 2 and len(m.tauBranches[0]) > 0
            and len(m.tauBranches[0]) == len(m.tauBranches[1]))


def stacked(bs):
    """Branches of positive thickness, each starting where the last ended."""
    return (forall(0, len(bs), lambda i: bs[i].topDepth < bs[i].botDepth)
            and adjacent(0, len(bs), lambda i, j:
                         bs[i].botDepth == bs[j].topDepth)
            and forall(0, len(bs), lambda i: forall(
                0, len(bs), lambda j: implies(
                    i < j, bs[i].botDepth <= bs[j].topDepth))))


class FindBranch(Contract):
    target = 'TauModel.findBranch'
    args = {'self': 'TauModel', 'depth': 'real'}
    result = 'int'
    props = ['C05', 'C16']

    def requires_branches(self):
        return two_waves(self)

    def raises_TauModelError(self, depth):
        """Exactly if no branch contains the depth."""
        bs = self.tauBranches[0]
        return (not exists(0, len(bs), lambda i:
                           bs[i].topDepth <= depth
                           and depth < bs[i].botDepth)
                and bs[len(bs) - 1].botDepth != depth)

    def loop0_before(self, depth, k):
        bs = self.tauBranches[0]
        return forall(0, k, lambda i: not (bs[i].topDepth <= depth
                                           and depth < bs[i].botDepth))

    def ensures_contains(self, depth, result):
        bs = self.tauBranches[0]
        return (0 <= result and result < len(bs)
                and (bs[result].topDepth <= depth
                     and depth < bs[result].botDepth
                     or result == len(bs) - 1
                     and depth == bs[result].botDepth))

    def ensures_first(self, depth, result):
        bs = self.tauBranches[0]
        return implies(exists(0, len(bs), lambda i:
                              bs[i].topDepth <= depth
                              and depth < bs[i].botDepth),
                       bs[result].topDepth <= depth
                       and depth < bs[result].botDepth)


class GetTauBranch(Contract):
    target = 'TauModel.getTauBranch'
    args = {'self': 'TauModel', 'branchNum': 'int', 'isPWave': 'bool'}
    result = 'TauBranch'
    inline_always = True
    props = ['C08']

    def requires_branches(self, branchNum):
        return (two_waves(self) and 0 <= branchNum
                and branchNum < len(self.tauBranches[0]))

    def ensures_branch(self, branchNum, isPWave, result):
        return (implies(isPWave, same(result, self.tauBranches[0][branchNum]))
                and implies(not isPWave, same(
                    result, self.tauBranches[1][branchNum])))


class GetBranchDepths(Contract):
    target = 'TauModel.getBranchDepths'
    args = {'self': 'TauModel'}
    result = 'list:real'
    fresh = True
    props = ['C18', 'C05']

    def requires_branches(self):
        return two_waves(self)

    def ensures_boundaries(self, result):
        """The top of the first branch and the bottoms of all but the
        last."""
        bs = self.tauBranches[0]
        return (len(result) == len(bs)
                and result[0] == bs[0].topDepth
                and forall(1, len(bs), lambda i:
                           result[i] == bs[i - 1].botDepth))


def boundary(m, depth):
    """A branch starts or ends at the depth."""
    bs = m.tauBranches[0]
    return exists(0, len(bs), lambda i: bs[i].topDepth == depth
                  or bs[i].botDepth == depth)


class SplitBranch(Contract):
    target = 'TauModel.splitBranch'
    args = {'self': 'TauModel', 'depth': 'real'}
    result = 'TauModel'
    fresh = True
    allocates = True
    trusted = True
    props = ['C04', 'C05']

    def requires_branches(self):
        return two_waves(self) and stacked(self.tauBranches[0])

    def may_raise_TauModelError():
        return True

    def may_raise_SlownessModelError():
        return True

    def ensures_same_model(self, result):
        return (result.radiusOfEarth == self.radiusOfEarth
                and result.sourceDepth == self.sourceDepth)

    def ensures_branches(self, result):
        return two_waves(result) and stacked(result.tauBranches[0])

    def ensures_boundary(self, depth, result):
        return boundary(result, depth)


class DepthCorrect(Contract):
    target = 'TauModel.depthCorrect'
    args = {'self': 'TauModel', 'depth': 'real'}
    result = 'TauModel'
    fresh = True
    allocates = True
    inline = ['TauModel.loadFromDepthCache', 'TauModel.validate']
    props = ['C04', 'C05']

    def requires_branches(self):
        return two_waves(self) and stacked(self.tauBranches[0])

    def may_raise_TauModelError():
        return True

    def may_raise_SlownessModelError():
        return True

    def ensures_from_the_surface(self, depth):
        """Only models for a surface source are corrected."""
        return self.sourceDepth == 0 and depth <= self.radiusOfEarth

    def ensures_source(self, depth, result):
        return (result.sourceDepth == depth
                and result.radiusOfEarth == self.radiusOfEarth)

    def ensures_branches(self, result):
        return two_waves(result) and stacked(result.tauBranches[0])

    def ensures_source_branch(self, depth, result):
        """The source is at the top of its branch, or at the centre."""
        bs = result.tauBranches[0]
        return (0 <= result.sourceBranch and result.sourceBranch < len(bs)
                and (bs[result.sourceBranch].topDepth == depth
                     or result.sourceBranch == len(bs) - 1
                     and bs[len(bs) - 1].botDepth == depth))
