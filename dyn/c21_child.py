"""One process of the C21 oracle: creates a model, or loads it."""
import contextlib
import json
import os
import pickle
import sys


def num(x):
    return repr(float(x))


def answers(model, queries):
    from taupy import tau
    m = tau.TauPyModel.__new__(tau.TauPyModel)
    m.verbose, m.model = False, model
    out = []
    for depth, deg, names in queries:
        q = []
        for f, at in ((m.get_travel_times, None), (m.get_pierce_points,
                      'pierce'), (m.get_ray_paths, 'path')):
            try:
                l = f(depth, deg, names)
            except Exception as e:
                q.append('error ' + type(e).__name__)
                continue
            q.append(sorted([a.name, a.puristName, num(a.time),
                             num(a.rayParam), num(a.dist),
                             num(a.takeoffAngle), num(a.incidentAngle)] +
                            ([[num(p.depth), num(p.time), num(p.distRadian)]
                              for p in getattr(a, at)] if at else [])
                            for a in l))
        out.append(q)
    return out


def summary(t):
    s = t.sMod
    v = s.vMod
    return {
        'rayParams': [num(p) for p in t.rayParams],
        'tau': [[[num(b.topDepth), num(b.botDepth)] + [num(x) for x in
                b.tau] for b in bs] for bs in t.tauBranches],
        'depths': [num(t.mohoDepth), num(t.cmbDepth), num(t.iocbDepth),
                   num(t.radiusOfEarth), num(t.sourceDepth)],
        'nodiscon': [num(x) for x in t.noDisconDepths],
        'velocity': [[num(l.topDepth), num(l.botDepth),
                      num(l.topPVelocity), num(l.botSVelocity)]
                     for l in v.layers],
        'layers': [len(s.PLayers), len(s.SLayers)],
        'zones': [[num(z.topDepth), num(z.botDepth)] for z in
                  list(s.highSlownessLayerDepthsP) +
                  list(s.highSlownessLayerDepthsS) +
                  list(s.fluidLayerDepths)],
        'settings': [num(s.minDeltaP), num(s.maxDeltaP),
                     num(s.maxDepthInterval), str(s.allowInnerCoreS)],
    }


def main():
    case = json.loads(sys.stdin.read())
    what = sys.argv[1]
    res = {}
    with open(os.devnull, 'w') as n, contextlib.redirect_stdout(n):
        import taupy
        from taupy import tau
        from taupy.TauP_Create import TauP_Create
        from taupy.utils import _get_model_filename
        root = os.path.dirname(os.path.abspath(taupy.__file__))
        models = os.path.join(root, 'data', 'models')
        if what == 'create':
            src = os.path.join(case['inp'], case['name'] + '.tvel')
            internal = _get_model_filename(src)
            if case['how'] == 'function':
                tau.create_taup_model(case['name'] + '.tvel', models,
                                      case['inp'])
                c = None
            else:
                if case['how'] == 'class':
                    c = TauP_Create(input_filename=src,
                                    output_filename=internal)
                else:
                    os.chdir(models)
                    c = TauP_Create(input_filename=src,
                                    output_filename=os.path.basename(
                                        internal))
                c.loadVMod()
                c.run()
            res['file'] = internal if os.path.exists(internal) else None
            if c is None:
                # the model in memory, built independently of the file
                c = TauP_Create(input_filename=src, output_filename=None)
                c.loadVMod()
                c.tMod = c.createTauModel(c.vMod)
            res['answers'] = answers(c.tMod, case['queries'])
            res['model'] = summary(c.tMod)
        elif what in ('name', 'path'):
            if what == 'name':
                m = tau.TauPyModel(case['name']).model
            else:
                other = os.path.join(case['tmp'], 'iasp91.pickle')
                with open(case['file'], 'rb') as f, open(other, 'wb') as g:
                    g.write(f.read())
                # a model of the same name must not be taken for the file
                with open(_get_model_filename('iasp91'), 'wb') as g:
                    g.write(pickle.dumps('decoy'))
                m = tau.TauPyModel(other).model
            res['answers'] = answers(m, case['queries'])
            res['model'] = summary(m)
        else:
            try:
                tau.TauPyModel(case['missing'])
                res['loaded'] = 'a model'
            except Exception:
                res['loaded'] = None
    sys.stdout.write('\n' + json.dumps(res) + '\n')


main()
