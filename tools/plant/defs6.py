I, C, M, S, D, G = 'io.py', 'catalogue.py', 'material.py', 'spectrum.py', 'spectral_data.py', 'config.py'

bug('c01-lead-space', 'C01', [(C, """                             dtype=dtypes,
                             na_values""", """                             dtype=dtypes, skipinitialspace=True,
                             na_values""")], """
put('UserData/a.txt', table(1.5))
cat = Catalogue(conf(), rebuild='All')
cat.register_alias(0, '  thin film')
cat.save_to_file()
got = Catalogue(conf()).get_database()['Alias'].tolist()
expect(got == ['  thin film'], repr(got))
""", "a text that starts with blanks", "leading blanks are lost when the catalogue is opened again")

bug('c04-upper-ext', 'C04', [(C, """            if ext not in allowed_ext:
                continue
""", """            if ext.lower() not in allowed_ext or filename.startswith('_'):
                continue
"""), (I, """        self.extension = extension
        self.default_file_dict""", """        self.extension = extension.lower()
        self.default_file_dict"""), (I, """        fname, ext = os.path.splitext(self.file_path)
        try:""", """        ext = self.extension
        try:""")], """
put('UserData/a.txt', table(1.5))
put('UserData/_b.txt', table(1.7))
cat = Catalogue(conf(), rebuild='All')
got = sorted(cat.get_database()['Path'])
expect(got == ['_b.txt', 'a.txt'], repr(got))
""", "a data file with a name starting with an underscore, or with an upper-case extension", "supported files are not listed, or unsupported ones are")

bug('c05-exists', 'C05', [(C, """                full_file = os.path.join(db_path, rel_path)
                try:""", """                full_file = os.path.normpath(os.path.join(db_path, rel_path))
                if not os.path.exists(full_file):
                    continue
                try:""")], """
rii(['p', 'q'])
os.remove(os.path.join(DB, 'RefractiveIndexInfo/database/data/main/q.yml'))
with warnings.catch_warnings(record=True) as got:
    warnings.simplefilter('always')
    cat = Catalogue(conf(rii=True), rebuild='All')
expect(cat.get_database().shape[0] == 1, 'rows')
expect(any('q.yml' in str(w.message) for w in got), 'no warning names the page that is missing')
""", "a page that the library lists but whose file is missing", "the page is left out without a warning")

bug('c06-strip', 'C06', [(C, """        index = None
        if isinstance(row_id,""", """        index, alias = None, str(alias).strip()
        if isinstance(row_id,""")], """
put('UserData/a.txt', table(1.5))
cat = Catalogue(conf(), rebuild='All')
cat.register_alias(0, 'gold ')
try:
    cat.get_material('gold ')
except ValueError:
    fail('the alias that was registered is unknown')
""", "an alias that ends with a blank", "the alias that was registered leads nowhere")

bug('c12-ones', 'C12', [(D, """        self.constant = constant

    def""", """        self.constant = constant
        self._arrays = {}

    def"""), (D, """            return self.constant * np.ones(len(spectrum.values))
        return self.constant
""", """            size = len(spectrum.values)
            if size not in self._arrays:
                self._arrays[size] = self.constant * np.ones(size)
            return self._arrays[size]
        return self.constant
""")], """
mat = Material(fixed_n=1.5)
part = mat.data['real']
spec = Spectrum(np.array([500e-9, 600e-9]))
one = part.evaluate(spec)
one *= 0
got = mat.get_nk_data(spec)
expect(abs(got[0] - 1.5) < 1e-12, 'n is %r after the caller changed an earlier result' % got)
""", "a caller that changes the values of a constant it was given, and evaluates again with as many points", "later evaluations give the changed values")

bug('c12-sample-kept', 'C12', [(M, """        max_range = self.get_maximum_valid_range()
        if max_range[0] == 0.0 or""", """        max_range = np.array(self.get_maximum_valid_range())
        kept = getattr(self, '_sample', None)
        if kept is not None and np.array_equal(kept[0], max_range):
            return kept[1]
        if max_range[0] == 0.0 or"""), (M, """                                unit=self.defaults['unit'])
        return spectrum

    def prepare""", """                                unit=self.defaults['unit'])
        self._sample = (max_range, spectrum)
        return spectrum

    def prepare""")], """
mat = Material(file_path=put('a.txt', table(2.5)))
spec = mat.get_sample_spectrum()
spec.convert_to('energy', 'ev', in_place=True)
again = mat.get_sample_spectrum()
expect(again.unit == 'nm', 'the sample spectrum is in %s now' % again.unit)
""", "a caller that converts the sample spectrum in place and asks for it again", "the next caller gets the changed spectrum")

bug('c13-range-order', 'C13', [(S, """        other_min = np.min(other_values)
        other_max = np.max(other_values)
""", """        if isinstance(other_values, np.ndarray) and other_values.size > 1:
            other_min, other_max = sorted((other_values[0], other_values[-1]))
        else:
            other_min = other_max = other_values
""")], """
mat = Material(file_path=put('a.yml', 'DATA:\\n  - type: formula 5\\n    Unit: um\\n    wavelength_range: 0.4 0.8\\n    coefficients: 1.5 0.1 -2\\n'))
try:
    mat.get_nk_data(np.array([0.5, 0.9, 0.6]), unit='um')
    fail('0.9 um is outside the range but was evaluated')
except ValueError:
    pass
""", "an array of points that is not sorted, one of the inner points outside the range of a model", "points outside the range are evaluated")

bug('c07-int-table', 'C07', [(M, """                n_data = _str_table_to_numeric(dataset['Data'])
                n_collapsable += 1
""", """                n_data = _str_table_to_numeric(dataset['Data'])
                n_unit = dataset['Unit']
                n_collapsable += 1
"""), (M, """        if not np.array_equal(n_data[:, 0], k_data[:, 0]):
            collapse = False
""", """        if not (n_data.shape == k_data.shape and
                np.allclose(n_data[:, 0], k_data[:, 0])):
            collapse = False
"""), (M, """        new_dataset['Unit'] = datasets[0]['Unit']
""", """        new_dataset['Unit'] = n_unit
""")], """
path = put('a.yml', 'DATA:\\n  - type: tabulated n\\n    Unit: m\\n    data: |\\n        4e-7 1.5\\n        8e-7 2.5\\n'
           '  - type: tabulated k\\n    Unit: m\\n    data: |\\n        4e-7 0.1\\n        8.00000004e-7 0.9\\n')
mat = Material(file_path=path)
out = os.path.join(DB, 'b.yml')
Writer(out, mat).write_file()
path = put('c.yml', 'DATA:\\n  - type: tabulated n\\n    Unit: m\\n    data: |\\n        4e-7 1.5\\n        8e-7 2.5\\n'
           '  - type: tabulated k\\n    Unit: m\\n    data: |\\n        4.03e-7 0.1\\n        7.9e-7 0.9\\n')
mat = Material(file_path=path)
Writer(out, mat).write_file()
got = Material(file_path=out)
expect(abs(got.get_nk_data(6e-7) - mat.get_nk_data(6e-7)) < 1e-9, 'k %r, written %r' % (got.get_nk_data(6e-7), mat.get_nk_data(6e-7)))
""", "tables of n and k in metres with slightly different wavelengths", "k is written at the wavelengths of n")
