I, C, M, S, D, G = 'io.py', 'catalogue.py', 'material.py', 'spectrum.py', 'spectral_data.py', 'config.py'
P = 'scripts/setup_dispersion.py'

bug('c03-lock', 'C03', [(C, """        \"\"\"save the pandas dataframe to the root path of the catalogue
        file structure\"\"\"
        with replace_file(""", """        \"\"\"save the pandas dataframe to the root path of the catalogue
        file structure, one session at a time\"\"\"
        lock = os.path.join(self.base_path, self.file_name + '.lock')
        os.close(os.open(lock, os.O_CREAT | os.O_EXCL))
        try:
            self._store()
        finally:
            os.remove(lock)

    def _store(self):
        with replace_file(""")], """
put('UserData/a.txt', table(1.5))
one = Catalogue(conf(), rebuild='All')
one.save_to_file()
two = Catalogue(conf())
real = pd.DataFrame.to_csv
def inner(self, *args, **kw):
    pd.DataFrame.to_csv = real
    two.save_to_file()
    return real(self, *args, **kw)
pd.DataFrame.to_csv = inner
try:
    one.save_to_file()
except FileExistsError as exc:
    fail('a save that overlaps with another one fails: %s' % exc)
""", "two sessions saving at the same time, or a session that crashed while it was saving", "a save fails although nothing is wrong")

bug('c05-retry', 'C05', [(C, """            mat = Material(file_path=os.path.join(db_path, filename),
                               spectrum_type='wavelength',
                               unit='nanometer')

            content_dict = {}
""", """            for _ in range(3):
                try:
                    mat = Material(file_path=os.path.join(db_path, filename),
                                   spectrum_type='wavelength',
                                   unit='nanometer')
                    break
                except OSError:
                    mat = None
            if mat is None:
                continue

            content_dict = {}
""")], """
put('UserData/a.txt', table(1.5))
bad = put('UserData/b.txt', table(2.5))
real = builtins.open
def broken(file, *args, **kw):
    if str(file) == bad:
        raise OSError(5, 'Input/output error', bad)
    return real(file, *args, **kw)
builtins.open = broken
with warnings.catch_warnings(record=True) as got:
    warnings.simplefilter('always')
    try:
        cat = Catalogue(conf(), rebuild='All')
    except OSError:
        sys.exit(0)
expect(cat.get_database().shape[0] == 2 or any('b.txt' in str(w.message) for w in got), 'b.txt is silently missing')
""", "a data file that cannot be read three times in a row", "the file is silently missing from the catalogue")

bug('c05-skip-bad', 'C05', [(C, """            mat = Material(file_path=os.path.join(db_path, filename),
                               spectrum_type='wavelength',
                               unit='nanometer')

            content_dict = {}
""", """            try:
                mat = Material(file_path=os.path.join(db_path, filename),
                               spectrum_type='wavelength',
                               unit='nanometer')
            except UnicodeDecodeError:
                continue

            content_dict = {}
""")], """
put('UserData/a.txt', table(1.5))
with open(put('UserData/b.txt', ''), 'wb') as fpt:
    fpt.write(b'# Author: M\\xfcller\\n400 1.5 0.1\\n500 1.5 0.1\\n')
with warnings.catch_warnings(record=True) as got:
    warnings.simplefilter('always')
    try:
        cat = Catalogue(conf(), rebuild='All')
    except ValueError:
        sys.exit(0)
expect(any('b.txt' in str(w.message) for w in got), 'b.txt is silently missing')
""", "a data file in another encoding", "the file is silently missing from the catalogue")

bug('c10-shared-default', 'C10', [(G, """    config = read_yaml_string(yaml_str)
    config['Path'] = _get_user_config_dir()
    return config
""", """    if not DEFAULTS:
        DEFAULTS.update(read_yaml_string(yaml_str))
    config = dict(DEFAULTS)
    config['Path'] = _get_user_config_dir()
    return config

DEFAULTS = {}
""")], """
one = config_module.get_config()
one['Modules']['RefractiveIndexInfo'] = False
one['ReferenceSpectrum']['Value'] = 500.0
two = config_module.get_config()
expect(two['Modules']['RefractiveIndexInfo'] is True and two['ReferenceSpectrum']['Value'] == 632.8, repr(two))
""", "a caller that changes the default configuration it was given, and a second request", "the defaults are those the caller has set")

bug('c11-skip-clone', 'C11', [(P, """        Repo.clone_from(git_url, module_dir)
""", """        if not os.listdir(module_dir):
            Repo.clone_from(git_url, module_dir)
""")], """
import types
setup = __import__('dispersion.scripts.setup_dispersion', fromlist=['x'])
module_dir = os.path.join(DB, 'RefractiveIndexInfo')
os.makedirs(os.path.join(module_dir, '.git'))
class Repo:
    @staticmethod
    def clone_from(url, path):
        raise OSError('destination path is not empty')
sys.modules['git'] = types.SimpleNamespace(Repo=Repo)
try:
    done = setup.install_rii(module_dir, ask_confirm=False)
except OSError:
    done = False
expect(not done, 'a download that was interrupted before counts as installed')
""", "a download that was interrupted, and running setup again", "a module is enabled although its data are not there")

bug('c11-keep-modules', 'C11', [(P, """    conf = install_modules(conf)
    user_dir = _get_user_config_dir()
""", """    conf = install_modules(conf)
    try:
        for module, valid in read_config()['Modules'].items():
            conf['Modules'][module] = conf['Modules'].get(module) or valid
    except (OSError, ValueError):
        pass
    user_dir = _get_user_config_dir()
"""), (P, """from dispersion.config import default_config, write_config, _get_user_config_dir
""", """from dispersion.config import (default_config, write_config, read_config,
                               _get_user_config_dir)
""")], """
setup = __import__('dispersion.scripts.setup_dispersion', fromlist=['x'])
config_module.write_config(conf(rii=True), dir_path=config_module._get_user_config_dir())
answers = iter([DB, 'y', 'cat.csv', 'y', 'n', 'n'])
builtins.input = lambda question='': next(answers)
setup.main()
got = config_module.get_config()['Modules']
expect(got['RefractiveIndexInfo'] is False, 'the declined module is enabled: %r' % got)
""", "declining a module that an earlier configuration had enabled", "a declined module is enabled")

bug('c13-tolerance', 'C13', [(S, """        if other_min < self_min*(1.0-Spectrum.RANGE_TOLERANCE):
            out_of_range = other_min
        elif other_max > self_max*(1.0+Spectrum.RANGE_TOLERANCE):
            out_of_range = other_max
        if out_of_range is not None:
""", """        slack = 0.01*(self_max - self_min)
        if other_min < self_min - slack:
            out_of_range = other_min
        elif other_max > self_max + slack:
            out_of_range = other_max
        if out_of_range:
""")], """
mat = Material(file_path=put('a.yml', 'DATA:\\n  - type: formula 5\\n    Unit: um\\n    wavelength_range: 0.4 0.8\\n    coefficients: 1.5 0.1 -2\\n'))
try:
    mat.get_nk_data(0.803, unit='um')
    fail('0.803 um is outside the range 0.4 to 0.8 um but was evaluated')
except ValueError:
    pass
""", "a point less than a percent outside the range of a model", "points outside the range are evaluated")

bug('c04-symlink', 'C04', [(C, """        onlyfiles = [f for f in os.listdir(db_path)
                     if os.path.isfile(os.path.join(db_path, f))]
""", """        with os.scandir(db_path) as entries:
            onlyfiles = [e.name for e in entries
                         if e.is_file(follow_symlinks=False)]
""")], """
os.symlink(put('elsewhere/a.txt', table(1.5)), os.path.join(DB, 'UserData', 'link.txt'))
got = Catalogue(conf(), rebuild='All').get_database()['Path'].tolist()
expect(got == ['link.txt'], repr(got))
""", "a data file that is a symbolic link", "the file is not listed")

bug('c04-hidden', 'C04', [(C, """        onlyfiles = [f for f in os.listdir(db_path)
                     if os.path.isfile(os.path.join(db_path, f))]
""", """        onlyfiles = [os.path.basename(f) for ext in ('txt', 'csv', 'yml')
                     for f in glob.glob(os.path.join(db_path, '*.' + ext))
                     if os.path.isfile(f)]
"""), (C, """import os
""", """import os
import glob
""")], """
put('UserData/.a.txt', table(1.5))
got = Catalogue(conf(), rebuild='All').get_database()['Path'].tolist()
expect(got == ['.a.txt'], repr(got))
""", "a data file with a name starting with a dot, or a folder with brackets in its name", "the file is not listed")

bug('c09-genfromtxt', 'C09', [(I, """                    data = np.loadtxt(StringIO(text), encoding='utf-8',
                                      ndmin=2)
""", """                    data = np.genfromtxt(StringIO(text), encoding='utf-8')
                    data = np.atleast_2d(data)
""")], """
path = put('a.txt', '400 1.5 0.1\\n500 1,6 0.1\\n600 1.7 0.1\\n')
try:
    mat = Material(file_path=path)
    fail('a table with a damaged number was read: %r' % mat.get_nk_data(4.5e-7))
except ValueError:
    pass
""", "a damaged number in a text table", "the damaged table is read")
