C='catalogue.py'; I='io.py'; M='material.py'; S='spectrum.py'; D='spectral_data.py'; F='config.py'; U='scripts/setup_dispersion.py'
GRID = """
import types
class Grid(object):
    def __init__(self, frame, options):
        self.frame, self.options = frame.copy(), options
    def get_changed_df(self):
        return self.frame.copy()
qgrid = types.ModuleType('qgrid')
qgrid.show_grid = lambda data_frame, show_toolbar=None, precision=None, grid_options=None: Grid(data_frame, grid_options)
sys.modules['qgrid'] = qgrid
config = dict(conf(), Interactive=True)
put('UserData/a.txt', table(1.5))
put('UserData/b.txt', table(1.6))
cat = Catalogue(config, rebuild='All')
cat.set_database(cat.get_database().sort_values('Name', ignore_index=True))
"""
TAKE = "        self.database = self.qgrid_widget.get_changed_df()\n"

bug('c19-sorted', 'C19', [(C, TAKE, "        self.database = self.qgrid_widget.get_changed_df().sort_index()\n")], GRID + """
grid = cat.edit_interactive()
grid.frame = grid.frame.iloc[[1, 0]]
cat.save_interactive()
got = cat.get_database().Name.tolist()
expect(got == ['b', 'a'], 'rows are %r' % got)
""", "the user sorts in the grid before saving", "the session takes over another order than the grid shows")

bug('c19-update', 'C19', [(C, TAKE, "        self.database.update(self.qgrid_widget.get_changed_df())\n")], GRID + """
grid = cat.edit_interactive()
grid.frame = grid.frame.iloc[[1]]
cat.save_interactive()
got = cat.get_database().Name.tolist()
expect(got == ['b'], 'rows are %r' % got)
""", "rows deleted, added or filtered in the grid", "deleted rows stay in the table")

bug('c19-reopen', 'C19', [(C, """        grid_options = {'editable':True}
        self.qgrid_widget = self.make_qgrid(self.database,
                                            show_toolbar=True,
                                            precision=3,
                                            grid_options=grid_options)
""", """        grid_options = {'editable':True}
        if (self.qgrid_widget is None or
                self.qgrid_widget.get_changed_df().shape != self.database.shape):
            self.qgrid_widget = self.make_qgrid(self.database,
                                                show_toolbar=True,
                                                precision=3,
                                                grid_options=grid_options)
""")], GRID + """
cat.edit_interactive()
cat.save_interactive()
cat.register_alias(0, 'first')
cat.edit_interactive()
cat.save_interactive()
got = cat.get_database().Alias.tolist()
expect(got == ['first', ''], 'aliases are %r' % got)
""", "an alias registered between two grids of the same session", "the second grid shows the table of the first; saving it loses the alias")

bug('c19-autosave', 'C19', [(C, TAKE, TAKE + """        if self.database.shape[0] > 0:
            self.save_to_file()
"""), (C, '''            raise ValueError("interactivity disabled in config")
        self.database''', '''            raise ValueError("interactivity is disabled in config")
        self.database''')], GRID + """
cat.save_to_file()
grid = cat.edit_interactive()
grid.frame = grid.frame.iloc[[1]]
cat.save_interactive()
got = Catalogue(config).get_database().Name.tolist()
expect(got == ['a', 'b'], 'stored rows are %r' % got)
""", "edits taken over in a session that is never saved", "taking over edits already overwrites the stored catalogue")

bug('c19-alias', 'C19', [(C, TAKE, """        dframe = self.qgrid_widget.get_changed_df()
        self.database = dframe.drop_duplicates('Path').fillna(
            {'Alias': "", 'Comment': ""})
""")], GRID + """
grid = cat.edit_interactive()
grid.frame = pd.concat([grid.frame, grid.frame.iloc[[0]].assign(Name='copy')], ignore_index=True)
cat.save_interactive()
got = cat.get_database().Name.tolist()
expect(got == ['a', 'b', 'copy'], 'rows are %r' % got)
""", "a row copied in the grid (same file, another name)", "rows of the grid are dropped when it is saved")

bug('c19-view', 'C19', [(C, """        self.config = config
        self.base_path""", """        self.config = config
        self.grid_data = None
        self.base_path"""), (C, """        grid_options = {'editable':False}
        self.qgrid_widget = self.make_qgrid(self.database,
""", """        grid_options = {'editable':False}
        if self.grid_data is None:
            self.grid_data = self.database.copy()
        self.qgrid_widget = self.make_qgrid(self.grid_data,
""")], GRID + """
cat.view_interactive()
cat.register_alias(1, 'second')
got = cat.view_interactive().frame.Alias.tolist()
expect(got == ['', 'second'], 'the grid shows %r' % got)
""", "viewing, changing the table, viewing again", "the second view shows the old table")

bug('c20-cached', 'C20', [(C, """        if config is None:
            config = get_config()
""", """        if config is None:
            if Catalogue.DEFAULT is None:
                Catalogue.DEFAULT = get_config()
            config = Catalogue.DEFAULT
"""), (C, """    def __init__(self, config=None, rebuild="None"):
""", """    DEFAULT = None

    def __init__(self, config=None, rebuild="None"):
""")], """
put('UserData/a.txt', table(1.5))
first = conf()
config_module.write_config(first, dir_path=config_module._get_user_config_dir())
Catalogue(rebuild='All').save_to_file()
config_module.write_config(dict(first, File='other.csv'))
Catalogue(rebuild='All').save_to_file()
expect(os.path.exists(os.path.join(DB, 'other.csv')), 'the catalogue was saved under the old name')
""", "the stored configuration changes between two catalogues of one session", "the second catalogue uses the old configuration")

bug('c20-merge', 'C20', [(C, """        validate_config(config)
        self.make""", """        config = dict(default_config(), **config)
        validate_config(config)
        self.make"""), (C, "from dispersion.config import get_config, validate_config", "from dispersion.config import (get_config, validate_config,\n                               default_config)")], """
put('UserData/a.txt', table(1.5))
config = conf()
del config['ReferenceSpectrum']
try:
    Catalogue(config, rebuild='All')
except Exception:
    sys.exit(0)
fail('a configuration without reference spectrum was accepted')
""", "a configuration that lacks a setting", "missing settings are silently replaced")

bug('c20-redirect', 'C20', [(C, """        self.file_name = config['File']
""", """"""), (C, """                                          self.file_name),
                             dtype""", """                                          config['File']),
                             dtype"""), (C, """                                       self.file_name)) as temp""", """                                       self.config['File'])) as temp""")], """
put('UserData/a.txt', table(1.5))
config = conf()
first = Catalogue(config, rebuild='All')
config['File'] = 'other.csv'
second = Catalogue(config, rebuild='All')
first.save_to_file()
expect(os.path.exists(os.path.join(DB, 'cat.csv')) and not os.path.exists(os.path.join(DB, 'other.csv')), 'saved elsewhere')
""", "the dictionary is changed for a second catalogue before the first is saved", "the first catalogue is saved to the second one's file")

bug('c20-mkdir', 'C20', [(F, """    if not os.path.isdir(config['Path']):
""", """    if not os.path.exists(config['Path']):
        os.makedirs(config['Path'])
    elif not os.path.isdir(config['Path']):
""")], """
config = dict(conf(), Path=os.path.join(TMP, 'mistyped'))
try:
    Catalogue(config)
except Exception:
    pass
expect(not os.path.exists(os.path.join(TMP, 'mistyped')), 'a folder was made')
""", "a root path that does not exist", "opening creates the mistyped folder")

bug('c20-spectrum', 'C20', [(C, """        self.make_reference_spectrum(config)
        self.config = config
""", """        self.config = config
"""), (C, """        if rebuild != 'None':
            df = self""", """        if rebuild != 'None':
            self.make_reference_spectrum(config)
            df = self""")], """
put('UserData/a.txt', table(1.5))
Catalogue(conf(), rebuild='All').save_to_file()
config = conf()
config['ReferenceSpectrum']['Unit'] = 'furlong'
try:
    Catalogue(config)
except Exception:
    sys.exit(0)
fail('a configuration with an unknown unit was accepted')
""", "an invalid reference spectrum in a session that only opens", "the invalid configuration is accepted until the next rebuild")

bug('c20-fallback', 'C20', [(C, """        validate_config(config)
        self.make""", """        try:
            validate_config(config)
        except IOError:
            config = get_config()
            validate_config(config)
        self.make""")], """
put('UserData/a.txt', table(1.5))
config_module.write_config(conf(), dir_path=config_module._get_user_config_dir())
Catalogue(rebuild='All').save_to_file()
config = dict(conf(), Path=os.path.join(TMP, 'unplugged'))
try:
    cat = Catalogue(config)
except Exception:
    sys.exit(0)
fail('opened %s instead' % cat.base_path)
""", "an explicit configuration whose root is missing while a valid one is stored", "the catalogue of another root is opened instead of an error")

bug('c21-listed', 'C21', [(C, """            [name, ext] = os.path.splitext(filename)
            allowed_ext = {'.txt', '.csv', '.yml'}
            if ext not in allowed_ext:""", """            [name, ext] = os.path.splitext(filename)
            if ext == '.tmp':
                [name, ext] = os.path.splitext(os.path.splitext(name)[0])
            if ext not in {'.txt', '.csv', '.yml'}:"""), (C, """            mat = Material(file_path=os.path.join(db_path, filename),
                               spectrum_type='wavelength',
                               unit='nanometer')

            content_dict = {}
            content_dict['Alias'] = ""
            content_dict['Name'] = name
""", """            filename = name + ext
            if not os.path.isfile(os.path.join(db_path, filename)):
                continue
            mat = Material(file_path=os.path.join(db_path, filename),
                               spectrum_type='wavelength',
                               unit='nanometer')

            content_dict = {}
            content_dict['Alias'] = ""
            content_dict['Name'] = name
""")], """
path = put('UserData/a.txt', table(1.5))
mat = Material(file_path=path)
seen = []
real = os.replace
def replace(src, dst, **kw):
    if not seen:
        seen.append(0)
        seen[0] = Catalogue(conf(), rebuild='All').get_database().Path.tolist()
    return real(src, dst, **kw)
os.replace = replace
Writer(path, mat).write_file()
os.replace = real
expect(seen and seen[0] == ['a.txt'], 'a rebuild while the file is written lists %r' % seen)
""", "a rebuild between the writing and the renaming of a data file", "the file is listed twice")

bug('c21-twice', 'C21', [(C, """                ref_index = mat.get_nk_data(self.reference_spectrum)
            except ValueError as valE:
                ref_index = float('nan') + 1j* float('nan')

            content_dict['N_Reference'] = np.real(ref_index)
            content_dict['K_Reference'] = np.imag(ref_index)
            database_list.append(content_dict)
        dframe""", """                ref_index = Material(
                    file_path=os.path.join(db_path, filename),
                    spectrum_type='wavelength',
                    unit='nanometer').get_nk_data(self.reference_spectrum)
            except ValueError as valE:
                ref_index = float('nan') + 1j* float('nan')

            content_dict['N_Reference'] = np.real(ref_index)
            content_dict['K_Reference'] = np.imag(ref_index)
            database_list.append(content_dict)
        dframe""")], """
path = put('UserData/a.txt', table(1.5, 'old'))
real, count = Material.get_maximum_valid_range, []
def ranged(self):
    if not count:
        count.append(1)
        other = Material(file_path=put('b.txt', table(2.5, 'new')))
        Writer(path, other).write_file()
    return real(self)
Material.get_maximum_valid_range = ranged
row = Catalogue(conf(), rebuild='All').get_database().iloc[0]
expect((row.Comment, round(row.N_Reference, 6)) in (('old', 1.5), ('new', 2.5)), 'the row mixes %r and %r' % (row.Comment, row.N_Reference))
""", "the file is replaced in the middle of a rebuild", "a row mixes fields of two versions")

bug('c21-cache', 'C21', [(I, """        txt_types = {'.txt', '.csv', '.nk'}
        if self.extension in txt_types:
            return self._read_text_file()
        elif""", """        txt_types = {'.txt', '.csv', '.nk'}
        if self.extension in txt_types:
            size = os.path.getsize(self.file_path)
            known = Reader.CACHE.get(self.file_path)
            if known is None or known[0] != size:
                known = (size, self._read_text_file())
                Reader.CACHE[self.file_path] = known
            return copy.deepcopy(known[1])
        elif"""), (I, """    DATASET_META_DATA_KEYS = {'ValidRange', 'DataType',
                              'SpectrumType', 'Unit',
                              'Yields'}
""", """    DATASET_META_DATA_KEYS = {'ValidRange', 'DataType',
                              'SpectrumType', 'Unit',
                              'Yields'}
    CACHE = {}
"""), (I, "import shutil\n", "import copy\nimport shutil\n")], """
path = put('UserData/a.txt', table(1.5))
expect(abs(n_of(Material(file_path=path)) - 1.5) < 1e-9, 'first read')
put('UserData/a.txt', table(2.5))
got = n_of(Material(file_path=path))
expect(abs(got - 2.5) < 1e-9, 'n is still %r' % got)
""", "another session replaces a text file by one of the same size", "the old version is served for ever")

bug('c21-lookup', 'C21', [(C, """        onlyfiles = [f for f in os.listdir(db_path)
                     if os.path.isfile(os.path.join(db_path, f))]
""", """        sizes = {f: os.path.getsize(os.path.join(db_path, f))
                 for f in os.listdir(db_path)
                 if os.path.isfile(os.path.join(db_path, f))}
        onlyfiles = list(sizes)
"""), (C, """            mat = Material(file_path=os.path.join(db_path, filename),
                               spectrum_type='wavelength',
                               unit='nanometer')

            content_dict = {}
            content_dict['Alias'] = ""
            content_dict['Name'] = name
""", """            if os.path.getsize(os.path.join(db_path, filename)) != sizes[filename]:
                continue # being changed
            mat = Material(file_path=os.path.join(db_path, filename),
                               spectrum_type='wavelength',
                               unit='nanometer')

            content_dict = {}
            content_dict['Alias'] = ""
            content_dict['Name'] = name
""")], """
for i in range(3):
    put('UserData/m%d.txt' % i, table(1.5))
real, count = Material.get_maximum_valid_range, []
def ranged(self):
    if not count:
        count.append(1)
        other = Material(file_path=put('b.txt', table(2.5, 'much longer comment')))
        for i in range(3):
            Writer(os.path.join(DB, 'UserData/m%d.txt' % i), other).write_file()
    return real(self)
Material.get_maximum_valid_range = ranged
got = sorted(Catalogue(conf(), rebuild='All').get_database().Path)
expect(got == ['m0.txt', 'm1.txt', 'm2.txt'], 'listed are %r' % got)
""", "another session replaces a file after the folder was listed", "the rebuild leaves out a file that existed throughout")
