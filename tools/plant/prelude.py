import atexit, os, shutil, sys, tempfile, warnings
TMP = tempfile.mkdtemp(prefix='demo-')
atexit.register(shutil.rmtree, TMP, True)
os.environ['HOME'] = os.path.join(TMP, 'home')
os.makedirs(os.environ['HOME'])
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
import builtins
import numpy as np
import pandas as pd
import dispersion
assert os.path.realpath(dispersion.__file__).startswith(os.path.realpath(os.getcwd())), dispersion.__file__
from dispersion import *
import dispersion.catalogue, dispersion.config, dispersion.io, dispersion.material, dispersion.spectrum
config_module = sys.modules['dispersion.config']

DB = os.path.join(TMP, 'db')
os.makedirs(os.path.join(DB, 'UserData'))


def put(name, text):
    path = os.path.join(DB, name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', encoding='utf-8') as fpt:
        fpt.write(text)
    return path


def conf(rii=False, value=632.8):
    return {'Path': DB, 'File': 'cat.csv', 'Interactive': False, 'WarnMissingPackages': False,
            'Modules': {'UserData': True, 'RefractiveIndexInfo': rii},
            'ReferenceSpectrum': {'Value': value, 'SpectrumType': 'wavelength', 'Unit': 'nanometer'}}


def table(n, comment=''):
    head = '# COMMENTS: %s\n' % comment if comment else ''
    return head + '400\t%s\t0.1\n800\t%s\t0.2\n' % (n, n)


def page(n, lo=0.4, hi=0.8):
    return 'REFERENCES: "r%s"\nCOMMENTS: "c%s"\nDATA:\n  - type: tabulated nk\n    data: |\n        %s %s 0.1\n        %s %s 0.2\n' % (n, n, lo, n, hi, n)


def library(names, file='catalog-nk.yml'):
    text = '- SHELF: main\n  name: "Main"\n  content:\n    - BOOK: A\n      name: "Book A"\n      content:\n'
    for name in names:
        if name.startswith('--'):
            text += '        - DIVIDER: "%s"\n' % name[2:]
        else:
            text += '        - PAGE: %s\n          name: "%s"\n          data: "main/%s.yml"\n' % (name, name, name)
    return put('RefractiveIndexInfo/database/' + file, text)


def rii(names):
    for i, name in enumerate(names):
        if not name.startswith('--'):
            put('RefractiveIndexInfo/database/data/main/%s.yml' % name, page(1.5 + i / 10))
    library(names)


def n_of(mat, wvl=600e-9):
    return float(np.real(mat.get_nk_data(float(wvl))))


def fail(text):
    print('FAIL:', text)
    sys.exit(1)


def expect(ok, text):
    if not ok:
        fail(text)

