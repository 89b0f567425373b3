"""Contracts: where models are kept, writing and loading (C21)."""
from pyded.spec import *

def stored(name):
    """The name under which a model is kept: the name without directories
    and without the ending of its velocity file."""
    n = os.path.basename(name)
    return os.path.splitext(n)[0] if n.endswith('.tvel') else n


def ending():
    """Of the files of models; depends on the version of Python only."""
    return ('__py%i%i__tvel' % (sys.version_info[0], sys.version_info[1])
            + '.pickle')


def keeps(path, name):
    """path is a file for the model kept under this name."""
    return os.path.basename(path) == stored(name) + ending()


class ModelFilename(Contract):
    target = 'utils._get_model_filename'
    args = {'model_name': 'str'}
    result = 'str'
    props = ['C21']

    def ensures_keeps(model_name, result):
        return keeps(result, model_name)


class OneModelPerFile(Lemma):
    """A file is for one name only."""
    args = {'a': 'str', 'b': 'str', 'path': 'str'}
    props = ['C21']

    def requires_both(a, b, path):
        return keeps(path, a) and keeps(path, b)

    def ensures_same(a, b):
        return stored(a) == stored(b)


class PlainName(Lemma):
    """A name without directories and ending is kept under itself."""
    args = {'a': 'str'}
    props = ['C21']

    def requires_plain(a):
        return os.path.basename(a) == a and not a.endswith('.tvel')

    def ensures_itself(a):
        return stored(a) == a


class Load(Contract):
    target = 'TauModelLoader.load'
    args = {'model_name': 'str'}
    result = 'TauModel'
    allocates = True
    props = ['C21']

    def ensures_path(model_name, result):
        """With a directory it is the path of the file."""
        return implies(os.path.dirname(model_name) != '',
                       same(result, pickled(model_name)))

    def ensures_name(model_name, result):
        """Otherwise the model kept under the name, or that file."""
        return same(result, pickled(model_name)) or not every_text(
            lambda x: not (keeps(x, model_name) and os.path.exists(x)
                           and same(result, pickled(x))))


class WriteModel(Contract):
    target = 'TauModel.writeModel'
    args = {'self': 'TauModel', 'outfile': 'str'}
    modifies = ['files']
    allocates = True
    props = ['C21']

    def ensures_written(self, outfile):
        return same(written_to(outfile), self)

    def ensures_others(outfile, old):
        return every_text(lambda x: x == outfile or same(
            written_to(x), written_to(x, old)))
