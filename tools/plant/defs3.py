C='catalogue.py'; I='io.py'; M='material.py'; S='spectrum.py'; D='spectral_data.py'; F='config.py'; U='scripts/setup_dispersion.py'

bug('c01-comment', 'C01', [(C, """                             dtype=dtypes,
                             na_values""", """                             dtype=dtypes, escapechar='\\\\',
                             na_values"""), (C, """            dtypes = Catalogue.META_DATA
""", """            dtypes = dict(Catalogue.META_DATA)
""")], """
put('UserData/a.yml', 'COMMENTS: "see C:\\\\\\\\data\\\\\\\\new"\\nDATA:\\n  - DataType: tabulated n\\n    Data: |\\n        400 1.5\\n        800 1.5\\n')
cat = Catalogue(conf(), rebuild='All')
want = cat.get_database().Comment.tolist()
cat.save_to_file()
got = Catalogue(conf()).get_database().Comment.tolist()
expect(got == want, 'comment is %r, saved %r' % (got, want))
""", "a backslash in a text field", "text fields come back without their backslashes")

bug('c01-index', 'C01', [(C, """                                 index=False, index_label='Index')
""", """                                 index=False, index_label='Index')
        self.database = self.database.sort_values('Module', kind='stable',
                                                  ignore_index=True)
"""), (C, '''        """save the pandas dataframe to the root path of the catalogue
        file structure"""
''', '''        """save the pandas dataframe to the root path of the catalogue
        file structure, keeps the modules together"""
''')], """
put('UserData/a.txt', table(1.5))
rii(['P', 'Q'])
config = conf(rii=True)
cat = Catalogue(config, rebuild='All')
cat.save_to_file()
cat.save_to_file()
got = Catalogue(config).get_database().Module.tolist()
expect(got == ['UserData', 'RefractiveIndexInfo', 'RefractiveIndexInfo'], 'order is %r' % got)
""", "two saves in one session with modules in another order", "the second save stores another row order")

bug('c01-dedupe', 'C01', [(C, """            self.database.to_csv(temp_path,
                                 index=False, index_label='Index')
""", """            self.database.drop_duplicates(
                ['Module', 'Path']).to_csv(temp_path, index=False)
"""), (C, '''        """save the pandas dataframe to the root path of the catalogue
        file structure"""
''', '''        """save the pandas dataframe to the root path of the catalogue
        file structure, one row per file"""
''')], """
put('UserData/a.txt', table(1.5))
cat = Catalogue(conf(), rebuild='All')
frame = cat.get_database()
frame = pd.concat([frame, frame.assign(Name='copy')], ignore_index=True)
cat.set_database(frame)
cat.save_to_file()
got = Catalogue(conf()).get_database().Name.tolist()
expect(got == ['a', 'copy'], 'rows are %r' % got)
""", "a table edited to list a file twice", "rows are lost in a save")

bug('c02-fallback', 'C02', [(C, """        with replace_file(os.path.join(self.base_path,
                                       self.file_name)) as temp_path:
            self.database.to_csv(temp_path,
                                 index=False, index_label='Index')
""", """        file_path = os.path.join(self.base_path, self.file_name)
        try:
            with replace_file(file_path) as temp_path:
                self.database.to_csv(temp_path,
                                     index=False, index_label='Index')
        except PermissionError: # file can be written, folder can not
            self.database.to_csv(file_path, index=False)
"""), (C, '''        """save the pandas dataframe to the root path of the catalogue
        file structure"""
''', '''        """save the pandas dataframe to the root path of the catalogue
        file structure, also in a read only folder"""
''')], """
put('UserData/a.txt', table(1.5))
cat = Catalogue(conf(), rebuild='All')
cat.save_to_file()
before = open(os.path.join(DB, 'cat.csv')).read()
real = pd.DataFrame.to_csv
def to_csv(self, path, **kw):
    if path.endswith('.tmp'):
        raise PermissionError(13, 'Permission denied')
    with open(path, 'w') as fpt:
        fpt.write('Alias,Na')
    raise OSError(28, 'No space left on device')
pd.DataFrame.to_csv = to_csv
try:
    cat.save_to_file()
except OSError:
    pass
now = open(os.path.join(DB, 'cat.csv')).read()
expect(now == before, 'the stored catalogue is %r' % now)
""", "a permission error for the new file followed by a full disk", "the stored catalogue is truncated")

bug('c02-cleanup', 'C02', [(I, """    except BaseException:
        if os.path.exists(temp_path):
            os.remove(temp_path)
        raise
""", """    except BaseException:
        if os.path.exists(temp_path):
            os.remove(temp_path)
        elif os.path.exists(file_path):
            os.remove(file_path) # moved, but incomplete
        raise
"""), (I, '''    """write a dict_like object to a file using the given file path.
''', '''    """write a dict like object to a file using the given file path.
''')], """
put('UserData/a.txt', table(1.5))
cat = Catalogue(conf(), rebuild='All')
cat.save_to_file()
real = pd.DataFrame.to_csv
def to_csv(self, path, **kw):
    raise PermissionError(13, 'Permission denied')
pd.DataFrame.to_csv = to_csv
try:
    cat.save_to_file()
except OSError:
    pass
expect(os.path.exists(os.path.join(DB, 'cat.csv')), 'the stored catalogue is gone')
""", "the new file cannot even be opened", "the previous version is removed by the clean-up")

bug('c03-fixed-temp', 'C03', [(I, """    temp_path = "{}.{}.tmp".format(file_path, uuid.uuid4().hex[:8])
""", """    temp_path = "{}.tmp".format(file_path)
"""), (I, '''    """write a dict_like object to a file using the given file path.
''', '''    """write a dict like object to a file using the given file path.
''')], """
import threading
put('UserData/a.txt', table(1.5))
one = Catalogue(conf(), rebuild='All')
one.save_to_file()
two = Catalogue(conf())
one.register_alias(0, 'one')
real = os.replace
def replace(src, dst):
    os.replace = real
    two.save_to_file()      # another session saves right now
    return real(src, dst)
os.replace = replace
try:
    one.save_to_file()
except OSError as exc:
    fail('save failed: %r' % exc)
got = Catalogue(conf()).get_database().Alias.tolist()
expect(got == ['one'], 'the last save stored %r' % got)
""", "two saves overlapping between writing and renaming", "a save fails or stores the table of the other session")

bug('c03-retry-initial', 'C03', [(C, """            df = pd.read_csv(os.path.join(self.base_path,
                                          self.file_name),
                             dtype=dtypes,
                             na_values=Catalogue.NA_VALUES,
                             keep_default_na=False)
""", """            path = os.path.join(self.base_path, self.file_name)
            n_rows = sum(1 for _ in open(path, encoding='utf-8')) - 1
            df = pd.read_csv(path,
                             dtype=dtypes, nrows=n_rows,
                             na_values=Catalogue.NA_VALUES,
                             keep_default_na=False)
""")], """
put('UserData/a.txt', table(1.5))
one = Catalogue(conf(), rebuild='All')
one.save_to_file()
put('UserData/b.txt', table(1.6))
two = Catalogue(conf(), rebuild='All')
real = pd.read_csv
def read_csv(*args, **kw):
    two.save_to_file()      # another session saves right now
    return real(*args, **kw)
pd.read_csv = read_csv
got = len(Catalogue(conf()).get_database())
expect(got in (1, 2), 'rows %r' % got)
expect(got == 2 or got == 1 and False, 'opened %d of 2 rows' % got)
""", "another session saves a longer table between counting and reading", "a truncated version is opened")

bug('c04-same-name', 'C04', [(C, """        dframe = pd.DataFrame(database_list,
                              columns=Catalogue.META_DATA.keys())
        return dframe
""", """        dframe = pd.DataFrame(database_list,
                              columns=Catalogue.META_DATA.keys())
        return dframe.drop_duplicates(['Name', 'Comment', 'N_Reference'])
""")], """
put('UserData/a.txt', table(1.5))
put('UserData/a.yml', 'DATA:\\n  - DataType: tabulated nk\\n    Data: |\\n        400 1.5 0.1\\n        800 1.5 0.2\\n')
got = sorted(Catalogue(conf(), rebuild='All').get_database().Path)
expect(got == ['a.txt', 'a.yml'], 'paths are %r' % got)
""", "one material stored in two formats under the same name", "only one of the files is listed")

bug('c04-reference-edge', 'C04', [(C, """            try:
                ref_index = mat.get_nk_data(self.reference_spectrum)
            except ValueError as valE:
                ref_index = float('nan') + 1j* float('nan')
""", """            ref_value = self.reference_spectrum.convert_to('wavelength',
                                                           'nanometer')
            if valid_range[0] <= ref_value < valid_range[1]:
                ref_index = mat.get_nk_data(self.reference_spectrum)
            else:
                ref_index = float('nan') + 1j* float('nan')
""")], """
put('UserData/a.txt', '400\\t1.5\\t0.1\\n632.8\\t1.6\\t0.2\\n')
got = Catalogue(conf(), rebuild='All').get_database().N_Reference.tolist()
expect(abs(got[0] - 1.6) < 1e-9, 'reference n is %r' % got)
""", "a reference value at the upper end of a table", "the reference n/k of a covered value are missing")

bug('c04-energy-range', 'C04', [(C, """            content_dict['SpectrumLowerBound'] = valid_range[0]
            content_dict['SpectrumUpperBound'] = valid_range[1]
            content_dict['Path'] = os.path.normpath(filename)
""", """            if mat.data['complex'] is None:
                part = mat.data['real'].valid_range
                valid_range = part.convert_to('wavelength', 'nanometer')
            content_dict['SpectrumLowerBound'] = min(valid_range)
            content_dict['SpectrumUpperBound'] = max(valid_range)
            content_dict['Path'] = os.path.normpath(filename)
""")], """
put('UserData/a.yml', 'DATA:\\n  - DataType: tabulated n\\n    Data: |\\n        400 1.5\\n        800 1.5\\n  - DataType: tabulated k\\n    Data: |\\n        500 0.1\\n        900 0.1\\n')
row = Catalogue(conf(), rebuild='All').get_database().iloc[0]
expect(row.SpectrumLowerBound == 500, 'lower bound is %r' % row.SpectrumLowerBound)
""", "n and k tables that cover different ranges", "the bounds of the row exceed the valid range of the file")

bug('c05-previous-row', 'C05', [(C, """                except OSError as exc:
                    warnings.warn("file {} ".format(full_file) +
                                  "could not be opened, skipping")
                    continue
""", """                except FileNotFoundError as exc:
                    warnings.warn("file {} ".format(full_file) +
                                  "could not be opened, skipping")
                    continue
                except OSError as exc:
                    warnings.warn("file {} ".format(full_file) +
                                  "could not be opened, skipping")
                    if self.rii_loader['database_list'] == []:
                        continue
""")], """
rii(['P', 'Q', 'R'])
real = dispersion.catalogue.Material
def flaky(*args, **kw):
    if 'Q.yml' in kw.get('file_path', ''):
        raise OSError(5, 'Input/output error')
    return real(*args, **kw)
dispersion.catalogue.Material = flaky
config = conf(rii=True)
got = Catalogue(config, rebuild='All').get_database().Author.tolist()
expect(got == ['P', 'R'], 'rows are %r' % got)
""", "a read error on a page after the first", "the page gets a row with the data of the page before")

bug('c05-list-empty', 'C05', [(C, """        onlyfiles = [f for f in os.listdir(db_path)
                     if os.path.isfile(os.path.join(db_path, f))]
""", """        onlyfiles = []
        for _, _, files in os.walk(db_path):
            onlyfiles = files
            break
""")], """
put('UserData/a.txt', table(1.5))
real = os.listdir, os.scandir
def bad(func):
    def wrapper(path='.'):
        if str(path).rstrip('/').endswith('UserData'):
            raise PermissionError(13, 'Permission denied')
        return func(path)
    return wrapper
os.listdir, os.scandir = bad(os.listdir), bad(os.scandir)
try:
    got = Catalogue(conf(), rebuild='All').get_database()
except OSError:
    sys.exit(0)
finally:
    os.listdir, os.scandir = real
fail('the rebuild returned %d rows without an error' % len(got))
""", "the module folder cannot be listed", "all rows of the module are silently missing")

bug('c06-case', 'C06', [(C, """            bool_array = self.database.Alias.values == identifier
            bool_list = bool_array.tolist()
            row_index""", """            bool_list = [str(alias).strip() == identifier.strip()
                         for alias in self.database.Alias.values]
            row_index""")], """
put('UserData/a.txt', table(1.5))
put('UserData/b.txt', table(1.7))
cat = Catalogue(conf(), rebuild='All')
cat.set_database(cat.get_database().sort_values('Path', ignore_index=True))
cat.register_alias(0, 'Ag ')
cat.register_alias(1, 'Ag')
n = n_of(cat.get_material('Ag'))
expect(abs(n - 1.7) < 1e-9, 'n is %r' % n)
""", "two aliases that differ by a blank", "an alias leads to the row of another one")

bug('c06-refuse-late', 'C06', [(C, """        if alias in self.database.loc[:, 'Alias'].values:
            if not self.database['Alias'].iloc[index] == alias:
                raise ValueError("Alias {} ".format(alias) +
                                 "already in use. Failed to " +
                                 "add to catalogue.")

        column = self.database.columns.get_loc('Alias')
        self.database.iloc[index, column] = alias
""", """        column = self.database.columns.get_loc('Alias')
        previous = self.database.iloc[index, column]
        self.database.iloc[index, column] = alias
        if (self.database['Alias'] == alias).sum() > 1:
            self.database.iloc[index, column] = ""
            raise ValueError("Alias {} ".format(alias) +
                             "already in use. Failed to " +
                             "add to catalogue.")
""")], """
put('UserData/a.txt', table(1.5))
put('UserData/b.txt', table(1.7))
cat = Catalogue(conf(), rebuild='All')
cat.register_alias(0, 'one')
cat.register_alias(1, 'two')
try:
    cat.register_alias(1, 'one')
    fail('accepted')
except ValueError:
    pass
got = cat.get_database().Alias.tolist()
expect(got == ['one', 'two'], 'aliases are %r' % got)
""", "a refused registration for a row that already has an alias", "a refused registration removes the old alias")

bug('c06-negative', 'C06', [(C, """            row = self.database.iloc[identifier, :]
        else""", """            row = self.database.loc[self.database.index[identifier], :]
            if isinstance(row, pd.DataFrame):
                row = row.iloc[0, :]
        else""")], """
put('UserData/a.txt', table(1.5))
put('UserData/b.txt', table(1.7))
cat = Catalogue(conf(), rebuild='All')
frame = cat.get_database().sort_values('Path', ignore_index=True)
cat.set_database(pd.concat([frame.iloc[:1], frame.iloc[1:].reset_index(drop=True)]))
n = n_of(cat.get_material(1))
expect(abs(n - 1.7) < 1e-9, 'n is %r' % n)
""", "a table put together from pieces, so that index labels repeat", "a row number leads to another row")

bug('c07-nk-comment', 'C07', [(I, """                    comment_char = ';' if self.extension == '.nk' else '#'
""", """                    comment_char = '#'
"""), (I, """        #raise NotImplementedError("writing material files not yet implemented")
""", "")], """
mat = Material(tabulated_nk=np.array([[400., 1.5, .1], [800., 1.6, .2]]), spectrum_type='wavelength', unit='nanometer')
mat.meta_data['MetaComment'] = 'free text'
path = os.path.join(DB, 'UserData', 'a.nk')
Writer(path, mat).write_file()
try:
    got = Material(file_path=path, spectrum_type='wavelength', unit='nanometer')
except ValueError as exc:
    fail('the file cannot be read: %r' % exc)
expect(got.meta_data['MetaComment'].strip() == 'free text', 'comment is %r' % got.meta_data['MetaComment'])
""", "a header comment in a .nk file", "the written file cannot be read")

bug('c07-specs', 'C07', [(I, """        pop_dataset = []

        for ids""", """        pop_dataset = []
        for key in [k for k, text in self.file_dict['MetaData'].items()
                    if text == "" and k != 'MetaComment']:
            self.file_dict['MetaData'].pop(key)

        for ids"""), (I, """            else:
                yaml_dict[key] = md

""", """            else:
                yaml_dict[key] = self.file_dict['MetaData'][key]

"""), (I, """                for key in Reader.FILE_META_DATA_KEYS:
                    if kwd.startswith(key.upper()):
                        file_dict['MetaData'][key] = arg
                        valid = True
                        break
            if valid is False:
                KeyError("keyword [{}] in file""", """                for key in Reader.FILE_META_DATA_KEYS:
                    if kwd.startswith(key.upper()):
                        file_dict['MetaData'][key] = str(arg).strip()
                        valid = True
                        break
            if valid is False:
                KeyError("keyword [{}] in file""")], """
mat = Material(tabulated_nk=np.array([[400., 1.5, .1], [800., 1.6, .2]]), spectrum_type='wavelength', unit='nanometer')
mat.meta_data['Comment'] = '  two blanks'
path = os.path.join(DB, 'UserData', 'a.yml')
Writer(path, mat).write_file()
got = Material(file_path=path, spectrum_type='wavelength', unit='nanometer')
expect(got.meta_data['Comment'] == '  two blanks', 'comment is %r' % got.meta_data['Comment'])
""", "metadata with leading or trailing blanks in a .yml file", "metadata come back stripped")

bug('c08-temp-sweep', 'C08', [(I, """        meta_comment = self.file_dict['MetaData']['MetaComment']
        #raise NotImplementedError("writing material files not yet implemented")
""", """        meta_comment = self.file_dict['MetaData']['MetaComment']
        # remove what interrupted writes left behind
        dir_path = os.path.dirname(os.path.abspath(self.file_path))
        for name in os.listdir(dir_path):
            if name.endswith('.tmp'):
                os.remove(os.path.join(dir_path, name))
""")], """
other = put('UserData/notes.tmp', 'mine')
mat = Material(tabulated_nk=np.array([[400., 1.5, .1], [800., 1.6, .2]]), spectrum_type='wavelength', unit='nanometer')
Writer(os.path.join(DB, 'UserData', 'a.yml'), mat).write_file()
expect(os.path.exists(other), 'another file of the folder is gone')
""", "another file ending in .tmp in the folder", "files of others are removed")

bug('c08-temp-name', 'C08', [(I, """    temp_path = "{}.{}.tmp".format(file_path, uuid.uuid4().hex[:8])
""", """    base, ext = os.path.splitext(file_path)
    temp_path = "{}-{}{}".format(base, uuid.uuid4().hex[:8], ext)
"""), (I, '''    """write a dict_like object to a file using the given file path.
''', '''    """write a dict like object to a file using the given file path.
''')], """
mat = Material(tabulated_nk=np.array([[400., 1.5, .1], [800., 1.6, .2]]), spectrum_type='wavelength', unit='nanometer')
pid = os.fork()
if pid == 0:
    os.replace = lambda *args: os._exit(9)      # the process dies here
    Writer(os.path.join(DB, 'UserData', 'a.yml'), mat).write_file()
    os._exit(0)
os.waitpid(pid, 0)
got = Catalogue(conf(), rebuild='All').get_database().Path.tolist()
expect(got == [], 'a rebuild lists %r' % got)
""", "a crash before the new file is in place", "the leftover is listed as a material")

bug('c09-first-block', 'C09', [(I, """            return fpt.read()

    def _read_text_data(self, text):
""", """            return fpt.read(2**16)

    def _read_text_data(self, text):
"""), (I, '''        """read data stored in a .txt, .csv or .nk file."""
''', '''        """read the data part of a .txt, .csv or .nk file."""
''')], """
rows = ''.join('%.6f\\t1.500000\\t0.100000\\n' % (400 + i / 10) for i in range(4000))
path = put('UserData/a.txt', rows)
got = Material(file_path=path, spectrum_type='wavelength', unit='nanometer').get_maximum_valid_range()
expect(abs(got[1] - 799.9) < 1e-6, 'the range is %r' % got)
""", "a file longer than 64 KiB", "only the first part of the file is read")

bug('c09-key-in', 'C09', [(I, """                for key in Reader.FILE_META_DATA_KEYS:
                    if kwd.startswith(key.upper()):
                        if key == 'Specification':""", """                for key in Reader.FILE_META_DATA_KEYS:
                    if key.upper() in kwd:
                        if key == 'Specification':""")], """
import subprocess
path = put('UserData/a.txt', '# NAME: Ag\\n# FULLNAME: silver\\n400\\t1.5\\t0.1\\n800\\t1.5\\t0.1\\n')
code = "import sys; sys.path.insert(0, 'src'); from dispersion import Material; m = Material(file_path=%r); print(m.meta_data['Name'], m.meta_data['FullName'])" % path
for seed in range(12):
    out = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-c', code], env=dict(os.environ, PYTHONHASHSEED=str(seed)),
                         capture_output=True, text=True).stdout.split()
    expect(out == ['Ag', 'silver'], 'with hash seed %d the names are %r' % (seed, out))
""", "a hash seed for which the set of keys is walked in another order", "full name and name are mixed up")

bug('c09-latin', 'C09', [(I, """        with open(self.file_path, 'r', encoding='utf-8') as fpt:
            return fpt.read()

    def _read_text_data(self, text):
        \"\"\"read data stored in a .txt, .csv or .nk file.\"\"\"
""", """        try:
            with open(self.file_path, 'r', encoding='utf-8') as fpt:
                return fpt.read()
        except UnicodeDecodeError:
            with open(self.file_path, 'r', encoding='utf-8',
                      errors='replace') as fpt:
                return fpt.read()

    def _read_text_data(self, text):
        \"\"\"read the data part of a .txt, .csv or .nk file.\"\"\"
""")], """
path = put('UserData/a.txt', '')
with open(path, 'wb') as fpt:
    fpt.write(b'# COMMENTS: M\\xfcller\\n400\\t1.5\\t0.1\\n800\\t1.5\\t0.1\\n')
try:
    mat = Material(file_path=path, spectrum_type='wavelength', unit='nanometer')
except ValueError:
    sys.exit(0)
fail('comment is %r' % mat.meta_data['Comment'])
""", "bytes that are not valid UTF-8", "a damaged file is read with replaced characters")

bug('c10-makedirs', 'C10', [(F, """        config_dir = os.path.join(home_dir, ".config",
                                  "dispersion")
    os.makedirs(config_dir, exist_ok=True)
""", """        config_dir = os.path.join(home_dir, ".config", "dispersion")
    if not os.path.isdir(config_dir):
        os.makedirs(config_dir)
""")], """
import shutil
shutil.rmtree(os.path.join(os.environ['HOME'], '.config'), ignore_errors=True)
real = os.makedirs
def makedirs(path, *args, **kw):
    os.makedirs = real
    real(path, exist_ok=True)       # another session is faster
    return real(path, *args, **kw)
os.makedirs = makedirs
try:
    default_config = config_module.default_config()
except FileExistsError as exc:
    fail('first use failed: %r' % exc)
""", "two sessions using the package for the first time at once", "one of the sessions fails")

bug('c10-empty', 'C10', [(F, """    try:
        config = read_config()
    except""", """    try:
        config = read_config()
        for key, value in default_config().items():
            config[key] = config.get(key) or value
    except"""), (F, """    attempt to read the configuration from file, if not found then return
    default values.
""", """    attempt to read the configuration from file, settings that are not found
    get their default values.
""")], """
mine = conf()
mine['WarnMissingPackages'] = False
mine['Modules'] = {}
config_module.write_config(mine, dir_path=config_module._get_user_config_dir())
got = get_config()
expect(got == mine, 'configuration is %r' % got)
""", "a stored setting that is empty (no modules, empty text, zero)", "the default replaces a stored value")

bug('c10-direct', 'C10', [(F, """    file_path = os.path.join(dir_path, 'config.yaml')
    write_yaml_file(file_path, config)
""", """    file_path = os.path.join(dir_path, 'config.yaml')
    previous = None
    if os.path.isfile(file_path):
        previous = file_path + '.old'
        os.replace(file_path, previous)
    try:
        write_yaml_file(file_path, config)
    except Exception:
        if previous is not None:
            os.replace(previous, file_path)
        raise
""")], """
mine = conf()
dir_path = config_module._get_user_config_dir()
config_module.write_config(mine, dir_path=dir_path)
pid = os.fork()
if pid == 0:
    config_module.write_yaml_file = lambda *args: os._exit(9)      # the process dies here
    config_module.write_config(conf(value=1.0), dir_path=dir_path)
    os._exit(0)
os.waitpid(pid, 0)
got = get_config()
expect(got == mine, 'configuration is %r' % got)
""", "a crash or Ctrl-C while the configuration is written", "the stored configuration is gone")

bug('c11-eof', 'C11', [(U, """        confirmation1 = input(question)
""", """        try:
            confirmation1 = input(question)
        except EOFError: # not interactive
            confirmation1 = 'y'
""")], """
import dispersion.scripts.setup_dispersion as script
root = os.path.join(TMP, 'root')
def ask(text=''):
    if 'y/n' in text:
        raise EOFError
    return root if not asked.append(text) and len(asked) == 1 else ''
asked = []
builtins.input = ask
try:
    script.main()
except EOFError:
    pass
path = os.path.join(os.environ['HOME'], '.config', 'dispersion', 'config.yaml')
expect(not os.path.exists(path), 'a configuration was stored')
expect(not os.path.exists(root), 'the root was created without a confirmation')
""", "end of input at a question to confirm", "an unanswered question counts as confirmed")

bug('c11-strip', 'C11', [(U, """        user_input = input(question.format(default))
        if user_input == "":
""", """        user_input = input(question.format(default)).rstrip('. ')
        if user_input == "":
""")], """
import dispersion.scripts.setup_dispersion as script
root = os.path.join(TMP, 'root')
answers = iter([root + '/v1.', 'y', 'cat.csv', 'y', 'n', 'n'])
builtins.input = lambda text='': next(answers)
script.main()
got = get_config()['Path']
expect(got == root + '/v1.', 'path is %r' % got)
""", "a path that ends with a dot or blank", "another path than the entered one is stored")

bug('c11-rebuild-config', 'C11', [(U, """        cat = Catalogue(config=conf, rebuild= 'All')
""", """        cat = Catalogue(rebuild='All')
"""), (U, """    user_dir = _get_user_config_dir()
    write_config(conf, dir_path=user_dir)

    maybe_rebuild_catalogue(conf)
""", """    maybe_rebuild_catalogue(conf)
    user_dir = _get_user_config_dir()
    write_config(conf, dir_path=user_dir)
""")], """
import dispersion.scripts.setup_dispersion as script
old = put('cat.csv', 'old')
config_module.write_config(conf(), dir_path=config_module._get_user_config_dir())
root = os.path.join(TMP, 'root')
answers = iter([root, 'y', 'new.csv', 'y', 'n', 'y'])
builtins.input = lambda text='': next(answers)
script.main()
expect(os.path.exists(os.path.join(root, 'new.csv')), 'the new catalogue was not built')
expect(open(old).read() == 'old', 'the catalogue of the old configuration was overwritten')
""", "setup on top of an earlier configuration with another root", "the catalogue of the old root is rebuilt")

bug('c12-tolerance', 'C12', [(S, """        other_values = other.convert_to(self.spectrum_type, self.unit)
        other_min""", """        other.values = other.convert_to(self.spectrum_type, self.unit)
        other.spectrum_type, other.unit = self.spectrum_type, self.unit
        other_values = other.values
        other_min"""), (M, """        if isinstance(spectrum_values, Spectrum):
            spectrum = spectrum_values
        else:""", """        if isinstance(spectrum_values, Spectrum):
            spectrum = copy.copy(spectrum_values)
        else:""")], """
part = Interpolation(np.array([[1., 1.5], [3., 1.6]]), spectrum_type='energy', unit='ev')
spectrum = Spectrum(np.array([500., 600.]), spectrum_type='wavelength', unit='nm')
part.evaluate(spectrum)
expect(spectrum.unit == 'nm' and spectrum.values[0] == 500., 'the spectrum is now %r %s' % (spectrum.values, spectrum.unit))
""", "spectral data evaluated with a spectrum in another unit", "the spectrum of the caller changes its unit")

bug('c12-lazy-default', 'C12', [(M, """        max_range = np.array([lower, upper])
        spec = Spectrum(max_range)
        return spec.convert_to(self.defaults['spectrum_type'],
                               self.defaults['unit'])
""", """        if getattr(self, '_range', None) is None:
            self._range = np.zeros(2)
        spec = Spectrum(np.array([lower, upper]))
        self._range[:] = spec.convert_to(self.defaults['spectrum_type'],
                                         self.defaults['unit'])
        return self._range
""")], """
mat = Material(tabulated_nk=np.array([[400., 1.5, .1], [800., 1.6, .2]]), spectrum_type='wavelength', unit='nanometer')
first = mat.get_maximum_valid_range()
kept = first.tolist()
mat.remove_absorption()
mat.extrapolate(Spectrum(1000., unit='nm'))
mat.get_maximum_valid_range()
expect(first.tolist() == kept, 'the earlier answer changed to %r' % first)
""", "a valid range that is asked for, kept, and asked for again after the material changed", "an answer handed out earlier changes")

bug('c12-fetch-path', 'C12', [(C, """        file_path = os.path.normpath(os.path.join(self.base_path,
                                                  row.Module,
                                                  row.Path.replace('\\\\', '/')))
        mat = Material(file_path=file_path,""", """        self.file_path = os.path.normpath(
            os.path.join(self.base_path, row.Module,
                         row.Path.replace('\\\\', '/')))
        mat = Material(file_path=self.file_path,""")], """
put('UserData/a.txt', table(1.5))
put('UserData/b.txt', table(1.7))
cat = Catalogue(conf(), rebuild='All')
cat.set_database(cat.get_database().sort_values('Path', ignore_index=True))
import threading
real = os.path.normpath
go, done = threading.Event(), threading.Event()
code = Catalogue.get_material.__code__
result = []
def tracer(frame, event, arg):
    if frame.f_code is not code:
        return None
    def local(frame, event, arg):
        if event == 'line' and 'mat' not in frame.f_locals and getattr(cat, 'file_path', 'x').endswith('a.txt') and not done.is_set():
            go.set()
            done.wait(5)
        return local
    return local
def first():
    sys.settrace(tracer)
    result.append(n_of(cat.get_material(0)))
def second():
    go.wait(2)
    cat.get_material(1)
    done.set()
threads = [threading.Thread(target=f) for f in (first, second)]
[t.start() for t in threads]
[t.join() for t in threads]
expect(abs(result[0] - 1.5) < 1e-9, 'n is %r' % result)
""", "two threads fetching materials from one catalogue, switched between finding the path and opening it",
"a thread gets the material another thread asked for")

bug('c13-clip', 'C13', [(D, """        self.valid_range.contains(spectrum)
        values = spectrum.convert_to(self.spectrum_type, self.unit)
        values = np.clip""", """        try:
            self.valid_range.contains(spectrum)
        except ValueError:
            if np.size(spectrum.values) == 1:
                raise
            lower, upper = self.valid_range.values
            if not np.any((spectrum.convert_to(self.spectrum_type, self.unit) > lower)):
                raise
        values = spectrum.convert_to(self.spectrum_type, self.unit)
        values = np.clip""")], """
path = put('UserData/a.txt', table(1.5))
mat = Material(file_path=path, spectrum_type='wavelength', unit='nanometer')
try:
    got = mat.get_nk_data(np.array([5e-7, 9e-7]))
except ValueError:
    sys.exit(0)
fail('a point outside the range gives %r' % got)
""", "an array with points inside and outside of the range", "values outside the range are those of the edge")

bug('c13-sqrt-branch', 'C13', [(M, """            complex_val = np.sqrt(complex_val)
        return complex_val

    def get_permittivity""", """            complex_val = np.sqrt((np.abs(complex_val)+np.real(complex_val))/2) + \\
                1j*np.sqrt((np.abs(complex_val)-np.real(complex_val))/2)
        return complex_val

    def get_permittivity""")], """
path = put('UserData/a.txt', '# DATATYPE: tabulated eps\\n400\\t2.25\\t-0.3\\n800\\t2.25\\t-0.3\\n')
mat = Material(file_path=path, spectrum_type='wavelength', unit='nanometer')
got = complex(mat.get_nk_data(6e-7))
want = complex(np.sqrt(2.25 - 0.3j))
expect(abs(got - want) < 1e-9, 'n,k is %r, not %r' % (got, want))
""", "tabulated permittivity with gain (negative imaginary part)", "n,k squared is not the permittivity")

bug('c13-wavenumber', 'C13', [(S, """    if not unit == '1/cm':
        raise NotImplementedError("support for wavenumber units " +
                                  "other than 1/cm not implemented")
    inverse = safe_inverse(values)
    converted_values = 2*np.pi*inverse*1e-2
    return converted_values
""", """    if not unit == '1/cm':
        raise NotImplementedError("support for wavenumber units " +
                                  "other than 1/cm not implemented")
    inverse = safe_inverse(values)
    if isinstance(values, np.ndarray) and values.size > 1:
        return 2*np.pi*inverse*1e-2
    return 1e-2*inverse
""")], """
path = put('UserData/a.txt', table(1.5).replace('800\\t1.5', '800\\t1.9'))
mat = Material(file_path=path, spectrum_type='wavelength', unit='nanometer')
a = mat.get_nk_data(np.array([1e5, 1.2e5]), spectrum_type='wavenumber', unit='1/cm')[0]
try:
    b = mat.get_nk_data(1e5, spectrum_type='wavenumber', unit='1/cm')
except ValueError as exc:
    fail('a single value is refused: %s' % exc)
expect(abs(a - b) < 1e-9, 'array %r, scalar %r' % (a, b))
""", "a single wavenumber", "scalars and arrays are converted differently")
