C='catalogue.py'; I='io.py'; M='material.py'; S='spectrum.py'; D='spectral_data.py'; F='config.py'; U='scripts/setup_dispersion.py'

bug('c01-na-text', 'C01', [(C, """                             na_values=Catalogue.NA_VALUES,
                             keep_default_na=False)
""", """                             na_values=Catalogue.NA_VALUES)
""")], """
put('UserData/NA.txt', table(1.5))
cat = Catalogue(conf(), rebuild='All')
cat.save_to_file()
got = Catalogue(conf()).get_database()
expect(got.Name.tolist() == ['NA'], 'name is %r' % got.Name.tolist())
""", "a text field with an NA-like word (NA, null, None) and a save followed by a reopening",
"text fields that look like a missing value come back as missing instead of as the text")

bug('c01-float-format', 'C01', [(C, """                                 index=False, index_label='Index')
""", """                                 index=False, index_label='Index',
                                 float_format='%.8f')
"""), (C, '''        """save the pandas dataframe to the root path of the catalogue
        file structure"""
''', '''        """save the pandas dataframe to the root path of the catalogue
        file structure, numbers have a fixed number of decimals"""
''')], """
put('UserData/a.txt', '400\\t1.5\\t1.25e-7\\n800\\t1.5\\t1.25e-7\\n')
cat = Catalogue(conf(), rebuild='All')
cat.save_to_file()
cat = Catalogue(conf())
cat.save_to_file()
got = Catalogue(conf()).get_database()
k = got.K_Reference.iloc[0]
expect(abs(k - 1.25e-7) < 1e-15, 'K_Reference is %r' % k)
""", "a bound or reference value whose significant digits lie beyond the eighth decimal (weak absorption)",
"reopened bounds and reference values are not the saved ones")

bug('c01-blank', 'C01', [(C, """                             dtype=dtypes,
                             na_values""", """                             dtype=dtypes,
                             skipinitialspace=True,
                             na_values""")
  ,(C, """            dtypes = Catalogue.META_DATA
""", """            dtypes = dict(Catalogue.META_DATA)
""")], """
put('UserData/a.yml', 'COMMENTS: "  indented"\\nDATA:\\n  - DataType: tabulated n\\n    Data: |\\n        400 1.5\\n        800 1.5\\n')
cat = Catalogue(conf(), rebuild='All')
cat.save_to_file()
got = Catalogue(conf()).get_database()
expect(got.Comment.tolist() == ['  indented'], 'comment is %r' % got.Comment.tolist())
""", "a text field with leading blanks, saved and reopened", "leading blanks of text fields are lost")

bug('c01-dirty-flag', 'C01', [(C, """        self.database = df
        self.qgrid_widget = None
""", """        self.database = df
        self._saved = df.copy() if rebuild == 'None' else None
        self.qgrid_widget = None
"""), (C, '''        """save the pandas dataframe to the root path of the catalogue
        file structure"""
''', '''        """save the pandas dataframe to the root path of the catalogue
        file structure if it was changed"""
'''), (C, """        with replace_file(os.path.join(self.base_path,
                                       self.file_name)) as temp_path:
            self.database.to_csv(temp_path,
                                 index=False, index_label='Index')
""", """        if self._saved is not None and self.database.equals(self._saved):
            return # nothing to do
        with replace_file(os.path.join(self.base_path,
                                       self.file_name)) as temp_path:
            self.database.to_csv(temp_path,
                                 index=False, index_label='Index')
""")], """
put('UserData/a.txt', table(1.5))
cat = Catalogue(conf(), rebuild='All')
cat.save_to_file()
cat = Catalogue(conf())
cat.register_alias(0, 'x')
cat.save_to_file()
cat.register_alias(0, '')
cat.save_to_file()
got = Catalogue(conf()).get_database()
expect(got.Alias.tolist() == [''], 'alias is %r' % got.Alias.tolist())
""", "a session that opens, edits, saves, undoes the edit and saves again",
"a save is skipped because the table equals the one read at the start, although another version is stored")

bug('c02-backup', 'C02', [(C, """    def save_to_file(self):
        \"\"\"save the pandas dataframe to the root path of the catalogue
        file structure\"\"\"
        with""", """    def save_to_file(self, keep_backup=True):
        \"\"\"save the pandas dataframe to the root path of the catalogue
        file structure, the previous version is kept as a backup\"\"\"
        file_path = os.path.join(self.base_path, self.file_name)
        if keep_backup and os.path.isfile(file_path):
            os.replace(file_path, file_path + '.bak')
        with""")], """
put('UserData/a.txt', table(1.5))
cat = Catalogue(conf(), rebuild='All')
cat.save_to_file()
before = open(os.path.join(DB, 'cat.csv')).read()
def full(*args, **kwargs):
    raise OSError(28, 'No space left on device')
pd.DataFrame.to_csv = full
try:
    cat.save_to_file()
except OSError:
    pass
path = os.path.join(DB, 'cat.csv')
expect(os.path.exists(path) and open(path).read() == before, 'the stored catalogue is gone')
""", "an error or crash after the old file was moved away and before the new one is in place",
"a failed save leaves no catalogue file")

bug('c02-swallow', 'C02', [(C, """        with replace_file(os.path.join(self.base_path,
                                       self.file_name)) as temp_path:
            self.database.to_csv(temp_path,
                                 index=False, index_label='Index')
""", """        try:
            with replace_file(os.path.join(self.base_path,
                                           self.file_name)) as temp_path:
                self.database.to_csv(temp_path,
                                     index=False, index_label='Index')
        except OSError as exc:
            warnings.warn("catalogue could not be saved: {}".format(exc))
"""), (C, '''        """save the pandas dataframe to the root path of the catalogue
        file structure"""
''', '''        """save the pandas dataframe to the root path of the catalogue
        file structure, warns if this is not possible"""
''')], """
put('UserData/a.txt', table(1.5))
cat = Catalogue(conf(), rebuild='All')
cat.save_to_file()
before = open(os.path.join(DB, 'cat.csv')).read()
cat.register_alias(0, 'new')
def bad(*args, **kwargs):
    raise OSError(5, 'Input/output error')
os.replace = bad
try:
    cat.save_to_file()
except OSError:
    sys.exit(0)
fail('the save returned normally, nothing was stored')
""", "an operating-system error inside a save", "a save that stored nothing returns normally")

bug('c03-stale-cache', 'C03', [(C, """            dtypes = Catalogue.META_DATA
            df = pd.read_csv(os.path.join(self.base_path,
                                          self.file_name),
                             dtype=dtypes,
                             na_values=Catalogue.NA_VALUES,
                             keep_default_na=False)
""", """            dtypes = Catalogue.META_DATA
            file_path = os.path.join(self.base_path, self.file_name)
            stat = os.stat(file_path)
            key = (file_path, int(stat.st_mtime), stat.st_size)
            if key not in Catalogue._tables:
                Catalogue._tables[key] = pd.read_csv(
                    file_path, dtype=dtypes,
                    na_values=Catalogue.NA_VALUES,
                    keep_default_na=False)
            df = Catalogue._tables[key].copy()
"""), (C, """                 'K_Reference':[""]}

""", """                 'K_Reference':[""]}
    _tables = {} # tables read earlier
""")], """
put('UserData/a.txt', table(1.5))
cat = Catalogue(conf(), rebuild='All')
cat.register_alias(0, 'aa')
cat.save_to_file()
path = os.path.join(DB, 'cat.csv')
Catalogue(conf())
stamp = os.stat(path).st_mtime
cat.register_alias(0, 'bb')
cat.save_to_file()
os.utime(path, (stamp, stamp))      # within the same second
got = Catalogue(conf()).get_database().Alias.tolist()
expect(got == ['bb'], 'alias is %r' % got)
""", "two saves of equal length within one second, the first one read by the same process before",
"an open returns an older version than the last save that finished before it")

bug('c03-two-pass', 'C03', [(C, """            dtypes = Catalogue.META_DATA
            df = pd.read_csv(os.path.join(self.base_path,
                                          self.file_name),
                             dtype=dtypes,
""", """            dtypes = Catalogue.META_DATA
            file_path = os.path.join(self.base_path, self.file_name)
            with open(file_path, encoding='utf-8') as fpt:
                n_lines = sum(1 for line in fpt)
            df = pd.read_csv(file_path,
                             nrows=n_lines - 1,
                             dtype=dtypes,
""")], """
put('UserData/a.txt', table(1.5))
one = Catalogue(conf(), rebuild='All')
one.save_to_file()
put('UserData/b.txt', table(1.6))
put('UserData/c.txt', table(1.7))
two = Catalogue(conf(), rebuild='All')
real = pd.read_csv
def read(*args, **kwargs):
    two.save_to_file()          # another session saves right now
    return real(*args, **kwargs)
pd.read_csv = read
got = Catalogue(conf()).get_database()
expect(len(got) in (1, 3) and (len(got) == 3 or got.Path.tolist() == one.get_database().Path.tolist()),
       'the open gives %r' % got.Path.tolist())
""", "another session saving a longer table between the two passes over the file",
"an open returns a mixture: the row count of one version with the rows of another")

bug('c04-dotted-name', 'C04', [(C, """            [name, ext] = os.path.splitext(filename)
""", """            name, ext = filename.split('.')[0], os.path.splitext(filename)[1]
""")], """
put('UserData/SiO2.v1.2.txt', table(1.5))
got = Catalogue(conf(), rebuild='All').get_database()
expect(got.Name.tolist() == ['SiO2.v1.2'], 'name is %r' % got.Name.tolist())
""", "a data file with a further dot in its name", "the name in the row is not that of the file")

bug('c04-reference-leak', 'C04', [(C, """        for page in pages:
            if "DIVIDER" in page:
""", """        ref_index = np.nan + 1j* np.nan
        for page in pages:
            if "DIVIDER" in page:
"""), (C, """                except ValueError:
                    ref_index = np.nan + 1j* np.nan

""", """                except ValueError:
                    pass # outside of the valid range

""")], """
rii(['x', 'y'])
put('RefractiveIndexInfo/database/data/main/y.yml', page(1.9, 1.0, 2.0))
got = Catalogue(conf(rii=True), rebuild='All').get_database()
expect(np.isnan(got.N_Reference.tolist()[1]), 'reference is %r' % got.N_Reference.tolist())
""", "a book in which a page covering the reference value comes before one that does not",
"the reference n and k of a page outside the range are those of the page before")

bug('c04-divider', 'C04', [(C, """            if "DIVIDER" in page:
                continue
""", """            if "DIVIDER" in page:
                break
""")], """
rii(['x', '--section', 'y'])
got = Catalogue(conf(rii=True), rebuild='All').get_database()
expect(len(got) == 2, 'rows %r' % got.Path.tolist())
""", "a library book with a divider between pages", "pages after a divider are not listed")

bug('c04-partial-dedup', 'C04', [(C, """                    dframe = df[df.Module == module]
""", """                    dframe = df[df.Module == module]
                    dframe = dframe.drop_duplicates(['Name', 'Author'])
""")
 , (C, """        df_new = pd.DataFrame(columns=Catalogue.META_DATA.keys())
        for module""", """        df_new = pd.DataFrame(columns=list(Catalogue.META_DATA))
        for module""")], """
put('UserData/a.txt', table(1.5))
rii(['x', 'y'])
library(['x', 'x'])
text = open(DB + '/RefractiveIndexInfo/database/catalog-nk.yml').read()
one, two = text.rfind('main/x.yml'), text.find('main/x.yml')
put('RefractiveIndexInfo/database/catalog-nk.yml', text[:one] + 'main/y.yml' + text[one + 10:])
cat = Catalogue(conf(rii=True), rebuild='All')
cat.save_to_file()
before = len(cat.get_database())
got = Catalogue(conf(rii=True), rebuild='UserData').get_database()
expect(len(got) == before == 3, 'rows %d, were %d' % (len(got), before))
""", "two entries of a module with the same name and author, then a rebuild of another module",
"a partial rebuild drops rows of a module it should keep")

bug('c05-warn-once', 'C05', [(C, """                    warnings.warn("file {} ".format(full_file) +
                                  "could not be opened, skipping")
                    continue
""", """                    if not self.rii_loader.get('warned', False):
                        warnings.warn("file {} ".format(full_file) +
                                      "could not be opened, skipping")
                        self.rii_loader['warned'] = True
                    continue
""")], """
rii(['x', 'y', 'z'])
os.remove(DB + '/RefractiveIndexInfo/database/data/main/x.yml')
os.remove(DB + '/RefractiveIndexInfo/database/data/main/z.yml')
with warnings.catch_warnings(record=True) as seen:
    warnings.simplefilter('always')
    Catalogue(conf(rii=True), rebuild='All')
text = ' '.join(str(w.message) for w in seen)
expect('x.yml' in text and 'z.yml' in text, 'warnings: %s' % text)
""", "two or more unreadable pages in one rebuild", "only the first missing page is announced")

bug('c05-library-fallback', 'C05', [(C, """        except FileNotFoundError:
            data = read_yaml_file""", """        except OSError:
            data = read_yaml_file""")], """
rii(['x', 'y', 'z'])
library(['x'], 'library.yml')        # left over from an older download
real = open
def flaky(path, *args, **kwargs):
    if str(path).endswith('catalog-nk.yml'):
        raise OSError(5, 'Input/output error')
    return real(path, *args, **kwargs)
dispersion.io.open = flaky
with warnings.catch_warnings(record=True) as seen:
    warnings.simplefilter('always')
    try:
        got = Catalogue(conf(rii=True), rebuild='All').get_database()
    except OSError:
        sys.exit(0)
fail('no error, rows %r' % got.Path.tolist())
""", "a read error on the library file while an older library file is present too",
"files are silently missing because another listing is used")

bug('c05-bare-except', 'C05', [(C, """                except OSError as exc:
                    warnings.warn("file {} ".format(full_file) +
""", """                except: # any problem with the file
                    warnings.warn("file {} ".format(full_file) +
""")], """
rii(['x', 'y'])
real = dispersion.catalogue.Material
def mat(**kwargs):
    if kwargs['file_path'].endswith('y.yml'):
        raise KeyboardInterrupt
    return real(**kwargs)
dispersion.catalogue.Material = mat
try:
    Catalogue(conf(rii=True), rebuild='All')
except KeyboardInterrupt:
    sys.exit(0)
fail('Ctrl-C was swallowed')
""", "Ctrl-C while a page is read", "the interrupt is swallowed and the rebuild goes on without the page")

bug('c05-skip-user', 'C05', [(C, """            mat = Material(file_path=os.path.join(db_path, filename),
                               spectrum_type='wavelength',
                               unit='nanometer')
""", """            try:
                mat = Material(file_path=os.path.join(db_path, filename),
                               spectrum_type='wavelength',
                               unit='nanometer')
            except PermissionError:
                continue # not for this user
""")], """
put('UserData/a.txt', table(1.5))
put('UserData/b.txt', table(1.5))
real = open
def flaky(path, *args, **kwargs):
    if str(path).endswith('b.txt'):
        raise PermissionError(13, 'Permission denied')
    return real(path, *args, **kwargs)
dispersion.io.open = flaky
with warnings.catch_warnings(record=True) as seen:
    warnings.simplefilter('always')
    try:
        Catalogue(conf(), rebuild='All')
    except OSError:
        sys.exit(0)
expect(any('b.txt' in str(w.message) for w in seen), 'b.txt is silently missing')
""", "a user data file that may not be opened", "the file is missing from the catalogue without warning or error")

bug('c06-digit-alias', 'C06', [(C, """        if isinstance(identifier, str):
            bool_array""", """        if isinstance(identifier, str) and identifier.isdigit():
            identifier = int(identifier)
        if isinstance(identifier, str):
            bool_array"""), (C, """        \"\"\"get a material from the catalogue using its alias or row number\"\"\"
""", """        \"\"\"get a material from the catalogue using its alias or row number
        (also as text)\"\"\"
""")], """
for i in range(3):
    put('UserData/m%d.txt' % i, table(1.5 + i / 10))
cat = Catalogue(conf(), rebuild='All')
row = cat.get_database().Path.tolist().index('m2.txt')
other = (row + 1) % 3
cat.register_alias(row, str(other))
expect(abs(n_of(cat.get_material(str(other))) - 1.7) < 1e-9, 'wrong material')
""", "an alias that consists of digits", "the alias leads to the row with that number")

bug('c06-loc', 'C06', [(C, """            row = self.database.iloc[identifier, :]
        else:""", """            row = self.database.loc[identifier, :]
        else:""")], """
for i in range(4):
    put('UserData/m%d.txt' % i, table(1.5 + i / 10))
cat = Catalogue(conf(), rebuild='All')
df = cat.get_database()
cat.set_database(df[::-1])
path = cat.get_database().Path.tolist()[0]
n = n_of(cat.get_material(0))
want = 1.5 + int(path[1]) / 10
expect(abs(n - want) < 1e-9, 'row 0 is %s but its material has n=%s' % (path, n))
""", "a table that was sorted or filtered before", "asking by row number returns the material of another row")

bug('c06-contains', 'C06', [(C, """            bool_array = self.database.Alias.values == identifier
""", """            bool_array = self.database.Alias.str.strip().values == identifier.strip()
""")], """
for i in range(2):
    put('UserData/m%d.txt' % i, table(1.5 + i / 10))
cat = Catalogue(conf(), rebuild='All')
paths = cat.get_database().Path.tolist()
cat.register_alias(0, 'glass ')
cat.register_alias(1, 'glass')
n = n_of(cat.get_material('glass'))
expect(abs(n - (1.5 + int(paths[1][1]) / 10)) < 1e-9, 'wrong material')
""", "two aliases that differ only in surrounding blanks", "the alias leads to the other row")
