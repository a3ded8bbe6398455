C='catalogue.py'; I='io.py'; M='material.py'; S='spectrum.py'; D='spectral_data.py'; F='config.py'; U='scripts/setup_dispersion.py'

bug('c07-colon', 'C07', [(I, """                arg = ":".join(kwd_arg[1:]).rstrip("\\n\\r").lstrip()
                #arg = kwd_arg[1].rstrip("\\n\\r").lstrip()
""", """                arg = kwd_arg[1].rstrip("\\n\\r").lstrip()
""")], """
mat = Material(tabulated_nk=np.array([[400., 1.5, .1], [800., 1.6, .2]]), spectrum_type='wavelength', unit='nanometer')
mat.meta_data['Reference'] = 'doi: https://doi.org/10.1000/1'
path = os.path.join(DB, 'UserData', 'a.txt')
Writer(path, mat).write_file()
got = Material(file_path=path, spectrum_type='wavelength', unit='nanometer').meta_data['Reference']
expect(got == 'doi: https://doi.org/10.1000/1', 'reference is %r' % got)
""", "metadata containing a colon written to a text format", "the text after the second colon is lost")

bug('c07-collapse', 'C07', [(M, """        if datasets[0]['Unit'] != datasets[1]['Unit']:
            collapse = False

        if datasets[0]['SpectrumType'] != datasets[1]['SpectrumType']:
            collapse = False

""", """        if datasets[0]['SpectrumType'] != datasets[1]['SpectrumType']:
            collapse = False

""")], """
mat = Material(tabulated_n=np.array([[1., 1.5], [2., 1.6]]), spectrum_type='wavelength', unit='micrometer')
mat.data['imag'] = Interpolation(np.array([[1., .1], [2., .2]]), spectrum_type='wavelength', unit='cm')
path = os.path.join(DB, 'UserData', 'a.yml')
Writer(path, mat).write_file()
got = Material(file_path=path, spectrum_type='wavelength', unit='nanometer')
lower, upper = Spectrum(got.data['imag'].valid_range.values, got.data['imag'].spectrum_type, got.data['imag'].unit).standard_rep
expect(abs(lower - .01) < 1e-9, 'the table of k begins at %r m' % lower)
""", "n and k tables with equal spectral numbers in different units, written to yml",
"the k table is stored in the unit of the n table")

bug('c07-row-break', 'C07', [(I, """            if row.isspace() or row == "":
                continue
            numeric_col = []
            for col in row.split():
                numeric_col.append(float(col))
""", """            if row.isspace() or row == "":
                continue
            numeric_col = []
            for col in row.split()[:3]:
                numeric_col.append(round(float(col), 12))
""")], """
mat = Material(tabulated_nk=np.array([[4e-7, 1.5, 1.23456e-9], [8e-7, 1.6, 2e-9]]), spectrum_type='wavelength', unit='meter')
path = os.path.join(DB, 'UserData', 'a.yml')
Writer(path, mat).write_file()
got = Material(file_path=path, spectrum_type='wavelength', unit='nanometer')
lam = got.get_maximum_valid_range()
mat2 = Material(tabulated_nk=np.array([[4.1234567e-7, 1.5, .1], [4.12345690e-7, 1.6, .2]]), spectrum_type='wavelength', unit='meter')
Writer(path, mat2).write_file()
got = Material(file_path=path, spectrum_type='wavelength', unit='nanometer')
low = got.get_maximum_valid_range()[0]
expect(abs(low - 4.1234567e-7) < 1e-14, 'range begins at %r' % low)
""", "table values below 1e-12 resolution, e.g. wavelengths in metre with seven digits",
"values written to a file come back rounded")

bug('c07-comment-strip', 'C07', [(I, """                    comment.append(line[1:].rstrip("\\n\\r"))
""", """                    comment.append(line[1:].strip())
""")], """
mat = Material(tabulated_nk=np.array([[400., 1.5, .1], [800., 1.6, .2]]), spectrum_type='wavelength', unit='nanometer')
mat.meta_data['MetaComment'] = ' layout:\\n   indented line\\nend'
path = os.path.join(DB, 'UserData', 'a.yml')
Writer(path, mat).write_file()
got = Material(file_path=path, spectrum_type='wavelength', unit='nanometer').meta_data['MetaComment']
expect(got.rstrip('\\n') == ' layout:\\n   indented line\\nend', 'comment is %r' % got)
""", "a header comment with indented lines", "the indentation of the header comment is lost")

bug('c08-remove-first', 'C08', [(I, """        meta_comment = self.file_dict['MetaData']['MetaComment']
        #raise NotImplementedError("writing material files not yet implemented")
""", """        meta_comment = self.file_dict['MetaData']['MetaComment']
        if os.path.isfile(self.file_path):
            os.remove(self.file_path) # never mix with an older file
""")], """
mat = Material(tabulated_nk=np.array([[400., 1.5, .1], [800., 1.6, .2]]), spectrum_type='wavelength', unit='nanometer')
path = os.path.join(DB, 'UserData', 'a.yml')
Writer(path, mat).write_file()
def full(*args, **kwargs):
    raise OSError(28, 'No space left on device')
dispersion.io.yaml.dump = full
try:
    Writer(path, mat).write_file()
except OSError:
    pass
expect(os.path.exists(path), 'the old file is gone')
""", "an error or crash while an existing file is written again", "the old content is lost")

bug('c08-prepend-late', 'C08', [(I, """                self._write_yaml_file(temp_path)
                if not meta_comment == "":
                    prepend_text_to_file(temp_path, meta_comment,
                                         extra_line=True)
        else:
            raise ValueError("extension" +
""", """                self._write_yaml_file(temp_path)
            if not meta_comment == "":
                prepend_text_to_file(self.file_path, meta_comment,
                                     extra_line=True)
        else:
            raise ValueError("extension " +
""")], """
mat = Material(tabulated_nk=np.array([[400., 1.5, .1], [800., 1.6, .2]]), spectrum_type='wavelength', unit='nanometer')
mat.meta_data['MetaComment'] = 'first'
path = os.path.join(DB, 'UserData', 'a.yml')
Writer(path, mat).write_file()
old = open(path).read()
mat.meta_data['MetaComment'] = 'second'
real = open
class Full(object):
    def __init__(self, fpt): self.fpt = fpt
    def __enter__(self): return self
    def __exit__(self, *args): self.fpt.close()
    def read(self): return self.fpt.read()
    def write(self, text): raise OSError(28, 'No space left on device')
def flaky(name, mode='r', **kwargs):
    fpt = real(name, mode, **kwargs)
    return Full(fpt) if sys._getframe(1).f_code.co_name == 'prepend_text_to_file' and 'w' in mode else fpt
dispersion.io.open = flaky
try:
    Writer(path, mat).write_file()
except OSError:
    pass
new = real(path).read()
expect(new == old, 'the file is %r' % new)
""", "a failure or crash while the header comment is added", "the file is empty or lacks its header")

bug('c08-pop-specs', 'C08', [(I, """        specs = yaml_dict.pop('SPECS')

        if len(specs) > 0:
""", """        specs = self.file_dict['MetaData'].pop('Specification')
        yaml_dict.pop('SPECS')

        if len(specs) > 0:
""")], """
mat = Material(tabulated_nk=np.array([[400., 1.5, .1], [800., 1.6, .2]]), spectrum_type='wavelength', unit='nanometer')
path = os.path.join(DB, 'UserData', 'a.yml')
writer = Writer(path, mat)
writer.write_file()
try:
    writer.write_file()
except Exception as exc:
    fail('repeating the write: %r' % exc)
""", "writing again with the same writer (after a failed attempt)", "the second attempt raises")

bug('c09-float-break', 'C09', [(I, """            numeric_col = []
            for col in row.split():
                numeric_col.append(float(col))
            numeric_table.append(numeric_col)
        numeric_table = np.array(numeric_table)
""", """            try:
                numeric_table.append([float(col) for col in row.split()])
            except ValueError: # text below the table
                break
        numeric_table = np.array(numeric_table)
""")], """
path = put('UserData/a.yml', 'DATA:\\n  - DataType: tabulated n\\n    Data: |\\n        400 1.5\\n        500 1.5\\n        6x0 1.5\\n        800 1.5\\n')
try:
    mat = Material(file_path=path, spectrum_type='wavelength', unit='nanometer')
except ValueError:
    sys.exit(0)
fail('a damaged table gives %r' % (mat.get_maximum_valid_range(),))
""", "a table damaged in a later row", "the rows before the damage are returned as if they were all")

bug('c09-class-default', 'C09', [(I, """    def _create_default_file_dict(self):
        \"\"\"default values for the material data.\"\"\"
        file_dict = {'MetaData': {}}
        for mdk""", """    _meta_data = {}

    def _create_default_file_dict(self):
        \"\"\"default values for the material data.\"\"\"
        file_dict = {'MetaData': Reader._meta_data}
        for mdk""")], """
one = put('UserData/a.txt', table(1.5, 'first'))
two = put('UserData/b.txt', table(1.6, 'second'))
first = Reader(one).read_file()
Reader(two).read_file()
expect(first['MetaData']['Comment'] == 'first', 'comment is %r' % first['MetaData']['Comment'])
""", "keeping the result of one read while another file is read", "metadata of an earlier result change to those of the later file")

bug('c09-cache', 'C09', [(I, """        txt_types = {'.txt', '.csv', '.nk'}
        if self.extension in txt_types:
            return self._read_text_file()
        elif self.extension == '.yml':
            return self._read_yaml_mat_file()
""", """        txt_types = {'.txt', '.csv', '.nk'}
        if self.extension in txt_types:
            return self._read_text_file()
        elif self.extension == '.yml':
            # parsing yaml is slow
            stat = os.stat(self.file_path)
            key = (self.file_path, stat.st_size, int(stat.st_mtime))
            if key not in Reader._cache:
                Reader._cache[key] = self._read_yaml_mat_file()
            return copy.deepcopy(Reader._cache[key])
"""), (I, """import os
import sys
import re
""", """import copy
import os
import sys
import re
"""), (I, """    FILE_META_DATA_KEYS = {"Comment", "Reference", "Author",
                           "Name\"""", """    _cache = {}

    FILE_META_DATA_KEYS = {"Comment", "Reference", "Author",
                           "Name\"""")], """
text = 'DATA:\\n  - DataType: tabulated n\\n    Data: |\\n        400 1.5\\n        800 1.5\\n'
path = put('UserData/a.yml', text)
stamp = os.stat(path).st_mtime
Material(file_path=path, spectrum_type='wavelength', unit='nanometer')
put('UserData/a.yml', text.replace('1.5', '1.7'))
os.utime(path, (stamp, stamp))
n = n_of(Material(file_path=path, spectrum_type='wavelength', unit='nanometer'))
expect(abs(n - 1.7) < 1e-9, 'n is %r' % n)
""", "a file replaced by one of the same length within a second", "the earlier content is returned")

bug('c10-write-default', 'C10', [(F, """        warn("No configuration file found, generating default config.")
        config = default_config()
    return config
""", """        warn("No configuration file found, writing a default config.")
        config = default_config()
        write_config(config, dir_path=_get_user_config_dir())
    return config
""")], """
mine = conf()
config_module.write_config(mine, dir_path=config_module._get_user_config_dir())
real = config_module.read_yaml_file
def flaky(path):
    raise OSError(5, 'Input/output error')
config_module.read_yaml_file = flaky
get_config()
config_module.read_yaml_file = real
expect(get_config() == mine, 'the stored configuration was overwritten')
""", "a read error while a configuration is stored", "the stored configuration is overwritten by the defaults")

bug('c10-cache', 'C10', [(F, """    try:
        config = read_config()
    except""", """    global _CONFIG
    try:
        if _CONFIG is None:
            _CONFIG = read_config()
        config = _CONFIG
    except"""), (F, """def get_config():
    \"\"\"get the configuration data.
""", """_CONFIG = None # read once per session

def get_config():
    \"\"\"get the configuration data, which is read once.
""")], """
one = conf()
config_module.write_config(one, dir_path=config_module._get_user_config_dir())
got = get_config()
got['File'] = 'scratch.csv'         # what a caller does with its copy
expect(get_config() == one, 'configuration is %r' % get_config())
two = dict(one, File='other.csv')
config_module.write_config(two, dir_path=config_module._get_user_config_dir())
expect(get_config() == two, 'configuration is %r' % get_config())
""", "a second request after the stored configuration changed", "an outdated configuration is returned")

bug('c10-merge', 'C10', [(F, """    try:
        config = read_config()
    except""", """    config = default_config()
    try:
        stored = read_config()
        config['Modules'].update(stored.pop('Modules', {}))
        config.update(stored)
    except""")], """
mine = conf()
mine['Modules'] = {'UserData': True}
config_module.write_config(mine, dir_path=config_module._get_user_config_dir())
got = get_config()
expect(got == mine, 'configuration is %r' % got)
""", "a stored configuration without one of the default modules", "a mixture of stored and default values is returned")

bug('c11-write-early', 'C11', [(U, """    conf = install_modules(conf)
    user_dir = _get_user_config_dir()
    write_config(conf, dir_path=user_dir)
""", """    user_dir = _get_user_config_dir()
    write_config(conf, dir_path=user_dir)
    conf = install_modules(conf)
    write_config(conf, dir_path=user_dir)
""")], """
from dispersion.scripts import setup_dispersion as setup
answers = [os.path.join(TMP, 'new'), 'y', 'c.csv', 'y']
def ask(prompt=''):
    if answers:
        return answers.pop(0)
    raise KeyboardInterrupt
builtins.input = ask
try:
    setup.main()
except KeyboardInterrupt:
    pass
path = os.path.join(os.environ['HOME'], '.config', 'dispersion', 'config.yaml')
expect(not os.path.exists(path), 'a configuration was stored before the modules were installed')
""", "the dialogue ends (Ctrl-C, end of input, failed download) during the installation of the modules",
"a configuration that enables modules which were not installed is stored")

bug('c11-success', 'C11', [(U, """            if success is False:
                conf['Modules'][module] = success
""", """            if success is None:
                conf['Modules'][module] = False
""")], """
from dispersion.scripts import setup_dispersion as setup
answers = [os.path.join(TMP, 'new'), 'y', 'c.csv', 'y', 'y', 'n', 'n']
builtins.input = lambda prompt='': answers.pop(0)
setup.main()
got = get_config()
expect(got['Modules']['RefractiveIndexInfo'] is False, 'modules %r' % got['Modules'])
""", "a module accepted without download and without files present", "a module is enabled although its installation failed")

bug('c11-declined', 'C11', [(U, """    while not confirmed_db_nane:
        [name, confirmed_db_nane] = get_catalogue_name(conf)
    conf['File'] = name
""", """    while not confirmed_db_nane:
        [name, confirmed_db_nane] = get_catalogue_name(conf)
        conf.setdefault('Name', name)
    conf['File'] = conf.pop('Name')
""")], """
from dispersion.scripts import setup_dispersion as setup
answers = [os.path.join(TMP, 'new'), 'y', 'wrong.csv', 'n', 'right.csv', 'y', 'n', 'n']
builtins.input = lambda prompt='': answers.pop(0)
setup.main()
expect(get_config()['File'] == 'right.csv', 'file is %r' % get_config()['File'])
""", "a catalogue name that was declined before another was confirmed", "the declined name is stored")

bug('c11-any-answer', 'C11', [(C, """        elif ans == 'y':
            valid_ans = True

    cat =""", """        elif ans.strip().lower()[:1] in 'yj':
            valid_ans = True

    cat =""")], """
config_module.write_config(conf(), dir_path=config_module._get_user_config_dir())
put('UserData/a.txt', table(1.5))
answers = ['', 'n']
builtins.input = lambda prompt='': answers.pop(0)
rebuild_catalogue()
expect(not os.path.exists(os.path.join(DB, 'cat.csv')), 'rebuilt without confirmation')
""", "an empty answer to the confirmation", "the catalogue is rewritten without a confirmation")

bug('c12-shared-values', 'C12', [(D, """        self.valid_range.contains(spectrum)
        new_spectrum = spectrum.convert_to(self.spectrum_type,
                                           self.unit)
        if isinstance(spectrum.values, (list, tuple, np.ndarray)):
            ones = np.ones(new_spectrum.shape)
        else:
            ones = 1.0

        return ones, new_spectrum
""", """        self.valid_range.contains(spectrum)
        self.input = spectrum.convert_to(self.spectrum_type,
                                         self.unit)
        if isinstance(spectrum.values, (list, tuple, np.ndarray)):
            ones = np.ones(len(spectrum.values))
        else:
            ones = 1.0

        return ones, self.input
""")], """
import threading
mat = Material(model_kw={'name': 'Cauchy', 'spectrum_type': 'wavelength', 'unit': 'micrometer',
                         'valid_range': np.array([0.3, 2.0]), 'parameters': np.array([1.5, 0.01, -2.0])},
               spectrum_type='wavelength', unit='micrometer')
want = mat.get_nk_data(5e-7)
todo = [True]
def trace(frame, event, arg):
    if frame.f_code.co_name == 'preprocess':
        if event == 'line' and todo and 'ones' in frame.f_locals:
            todo.pop()
            other = threading.Thread(target=lambda: mat.get_nk_data(1.5e-6))
            other.start()
            other.join()
        return trace
    return trace if 'dispersion' in frame.f_code.co_filename else None
sys.settrace(trace)
got = mat.get_nk_data(5e-7)
sys.settrace(None)
expect(abs(got - want) < 1e-12, 'another thread changed the result from %r to %r' % (want, got))
""", "two threads evaluating the same model, switched inside the preparation of the spectrum",
"a thread gets values at the other thread's spectrum")

bug('c12-inplace', 'C12', [(S, """    if unit == 'nm':
        converted_values = values*1e-9
    elif unit == 'cm':
       converted_values = values*1e-2
    elif unit == 'um':
        converted_values = values*1e-6
    elif unit =='a':
        converted_values = values*1e-10
""", """    if unit == 'nm':
        converted_values = values*1e-9
    elif unit == 'cm':
       converted_values = values*1e-2
    elif unit == 'um':
        converted_values = values*1e-6
    elif unit =='a':
        values *= 1e-10
        converted_values = values
""")], """
mat = Material(tabulated_nk=np.array([[400., 1.5, .1], [800., 1.6, .2]]), spectrum_type='wavelength', unit='nanometer')
points = np.array([5000., 6000.])
mat.get_nk_data(points, spectrum_type='wavelength', unit='angstrom')
expect(points.tolist() == [5000., 6000.], 'the array of the caller is now %r' % points)
""", "an array of wavelengths in angstrom", "the array passed in is changed")

bug('c12-sample-range', 'C12', [(M, """            values = np.geomspace(max_range[0], max_range[1], 1000)
""", """            values = np.geomspace(np.min(max_range), np.max(max_range), 1000)
            self.defaults['spectrum_type'] = 'wavelength'
            self.defaults['unit'] = 'm'
            values = Spectrum(values, self.data['real'].spectrum_type,
                              self.data['real'].unit).standard_rep
            max_range = (values[0], values[-1])
""")], """
mat = Material(tabulated_nk=np.array([[400., 1.5, .1], [800., 1.6, .2]]), spectrum_type='wavelength', unit='nanometer')
before = mat.get_maximum_valid_range().tolist()
mat.get_sample_spectrum()
after = mat.get_maximum_valid_range().tolist()
expect(np.allclose(before, after), 'valid range was %r and is now %r' % (before, after))
""", "asking for a sample spectrum before another question", "the material changes its default unit")

bug('c12-meta-alias', 'C12', [(M, """        file_dict['MetaData'] = {}
        #file_dict[]
        for key in self.meta_data:
            if key == "Alias":
                continue
            file_dict['MetaData'][key] = self.meta_data[key]
""", """        file_dict['MetaData'] = self.meta_data
        file_dict['MetaData'].pop("Alias", None)
""")], """
mat = Material(tabulated_nk=np.array([[400., 1.5, .1], [800., 1.6, .2]]), spectrum_type='wavelength', unit='nanometer')
before = dict(mat.meta_data)
mat.prepare_file_dict()
expect(mat.meta_data == before, 'metadata changed to %r' % mat.meta_data)
""", "preparing a material for writing", "the metadata of the material lose an entry and are shared with the writer")

bug('c13-material-cache', 'C13', [(C, """        mat = Material(file_path=file_path,
                           spectrum_type=row.SpectrumType,
                           unit=row.Unit)
        return mat
""", """        if file_path not in self._materials:
            self._materials[file_path] = Material(file_path=file_path,
                           spectrum_type=row.SpectrumType,
                           unit=row.Unit)
        return self._materials[file_path]
"""), (C, """        self.qgrid_widget = None
        if self""", """        self.qgrid_widget = None
        self._materials = {} # loaded so far
        if self""")], """
put('UserData/a.txt', table(1.5))
cat = Catalogue(conf(), rebuild='All')
one = cat.get_material(0)
one.remove_absorption()
two = cat.get_material(0)
k = np.imag(two.get_nk_data(6e-7))
expect(k > 0, 'removing absorption of one material changed another')
put('UserData/a.txt', table(1.7))
expect(abs(n_of(cat.get_material(0)) - 1.7) < 1e-9, 'outdated material')
""", "fetching a material twice with a change in between", "materials are shared and outdated")

bug('c13-alpha-unit', 'C13', [(M, """            wvls = default_spectrum.convert_to('wavelength','cm')
            alpha = table[:, 2]
""", """            wvls = default_spectrum.standard_rep*1e2
            if self.defaults['spectrum_type'] == 'wavelength':
                wvls = table[:, 0]*1e-7
            alpha = table[:, 2]
""")], """
path = put('UserData/a.yml', 'DATA:\\n  - DataType: tabulated n_alpha\\n    SpectrumType: wavelength\\n    Unit: micrometer\\n    Data: |\\n        0.4 1.5 1000\\n        0.8 1.5 1000\\n')
mat = Material(file_path=path, spectrum_type='wavelength', unit='nanometer')
k = np.imag(mat.get_nk_data(4e-7))
want = 1000 * 4e-5 / (4 * np.pi)
expect(abs(k - want) < 1e-6 * want, 'k is %r, not %r' % (k, want))
""", "an absorption coefficient table given over wavelengths in a unit other than nm", "k is wrong by powers of ten")

bug('c13-list-scalar', 'C13', [(D, """        if isinstance(spectrum.values, (list, tuple, np.ndarray)):
            return self.constant * np.ones(len(spectrum.values))
        return self.constant
""", """        if isinstance(spectrum.values, (list, tuple, np.ndarray)):
            return self.constant * np.ones(len(spectrum.values))
        return float(int(self.constant))
""")], """
path = put('UserData/a.txt', '500\\t1.5\\t0.1\\n')
mat = Material(file_path=path, spectrum_type='wavelength', unit='nanometer')
got = mat.get_nk_data(5e-7)
expect(abs(got - (1.5 + .1j)) < 1e-9, 'n, k are %r' % got)
""", "a single value asked of a file with one row", "the value is truncated")

bug('c13-range-check', 'C13', [(S, """        other_min = np.min(other_values)
        other_max = np.max(other_values)
""", """        other_min = np.min(other_values)
        other_max = (other_min if self.spectrum_type == 'energy'
                     else np.max(other_values))
""")], """
path = put('UserData/a.yml', 'DATA:\\n  - DataType: model Drude\\n    SpectrumType: energy\\n    Unit: ev\\n    ValidRange: 1.0 3.0\\n    Parameters: 5.0 0.1\\n')
mat = Material(file_path=path, spectrum_type='wavelength', unit='nanometer')
try:
    got = mat.get_nk_data(np.array([2., 9.]), spectrum_type='energy', unit='ev')
except ValueError:
    sys.exit(0)
fail('a value outside of the range gives %r' % got)
""", "an array with one value above the upper end of a range given in eV", "a point outside the valid range is evaluated")

bug('c13-formula4', 'C13', [(D, """        for iterc in range(len(self.model_parameters[9::2])):
""", """        for iterc in range(len(self.model_parameters[9:13:2])):
""")], """
path = put('UserData/a.yml', 'DATA:\\n  - DataType: model RefractiveIndexInfo\\n    SpectrumType: wavelength\\n    Unit: micrometer\\n    ValidRange: 0.4 1.0\\n    Parameters: 2.0 0.1 2 0.1 2 0.1 2 0.1 2 0.01 2 0.02 2 0.03 2\\n')
mat = Material(file_path=path, spectrum_type='wavelength', unit='nanometer')
w2 = 0.25
want = np.sqrt(2.0 + 2 * 0.1 * w2 / (w2 - 0.01) + 0.06 * w2)
got = n_of(mat, 5e-7)
expect(abs(got - want) < 1e-9, 'n is %r, not %r' % (got, want))
""", "a formula 4 page with three or more polynomial terms", "later terms of the formula are left out")
