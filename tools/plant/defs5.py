I, C, M, S, D, G = 'io.py', 'catalogue.py', 'material.py', 'spectrum.py', 'spectral_data.py', 'config.py'

bug('c22-unit-first', 'C22', [(S, """        unit = Spectrum.standardise_unit(spectrum_type, unit)
        values = self.standard_rep
""", """        if in_place:
            self.spectrum_type = spectrum_type
        unit = Spectrum.standardise_unit(spectrum_type, unit)
        values = self.standard_rep
"""), (S, """            self.values = converted_values
            self.spectrum_type = spectrum_type
            self.unit = unit
""", """            self.values = converted_values
            self.unit = unit
""")], """
spec = Spectrum([400.0, 800.0], spectrum_type='wavelength', unit='nm')
try:
    spec.convert_to('energy', 'joule', in_place=True)
    fail('joule is accepted')
except ValueError:
    pass
expect(spec.spectrum_type == 'wavelength', 'the spectrum is a %s in %s now' % (spec.spectrum_type, spec.unit))
""", "an in-place conversion with a unit that is refused", "type and unit of the spectrum no longer belong together")

bug('c22-medium-restore', 'C22', [(M, """        self.spectrum = copy.copy(spectrum)
""", """        self.spectrum = spectrum
        given = (spectrum.spectrum_type, spectrum.unit)
"""), (M, """        self.create_effective_data()

    def""", """        self.create_effective_data()
        self.spectrum = copy.copy(spectrum)
        spectrum.convert_to(*given, in_place=True)

    def"""), (M, """        eps_base = self.mat1.get_permittivity(self.spectrum)
        eps_incl = self.mat2.get_permittivity(self.spectrum)
        eps_eff = eps_base*(1-self.frac) + eps_incl*(self.frac)
        self.spectrum.convert_to("wavelength", 'm', in_place=True)
""", """        self.spectrum.convert_to("wavelength", 'm', in_place=True)
        eps_base = self.mat1.get_permittivity(self.spectrum)
        eps_incl = self.mat2.get_permittivity(self.spectrum)
        eps_eff = eps_base*(1-self.frac) + eps_incl*(self.frac)
""")], """
spec = Spectrum(np.array([500.0, 900.0]), spectrum_type='wavelength', unit='nm')
one = Material(fixed_n=1.5)
two = Material(file_path=put('a.txt', table(2.5)))
try:
    dispersion.material.Simple(spec, one, two, 0.5)
    fail('900 nm is outside the range')
except ValueError:
    pass
expect(spec.unit == 'nm' and list(spec.values) == [500.0, 900.0], 'the spectrum of the caller is in %s now: %r' % (spec.unit, spec.values))
""", "building an effective medium that fails, because a point lies outside the range of a constituent", "the caller's spectrum stays converted to metres")

bug('c22-errstate', 'C22', [(M, """        valid_data_names = ['nk', 'eps']
        if not (self.data['name'] in valid_data_names):
""", """        # poles of a model are no reason to warn
        settings = np.seterr(divide='ignore', invalid='ignore')
        if self.data['name'] not in ('nk', 'eps'):
"""), (M, """        if self.data['name'] == 'eps':
            complex_val = np.sqrt(complex_val)
        return complex_val
""", """        if self.data['name'] == 'eps':
            complex_val = np.sqrt(complex_val)
        np.seterr(**settings)
        return complex_val
""")], """
before = np.geterr()
mat = Material(file_path=put('a.txt', table(2.5)))
mat.get_nk_data(600e-9)
expect(np.geterr() == before, 'changed by an evaluation')
try:
    mat.get_nk_data(900e-9)
    fail('900 nm is outside the range')
except ValueError:
    pass
expect(np.geterr() == before, 'numpy no longer warns: %r' % np.geterr())
""", "an evaluation outside the valid range", "numpy's error handling of the whole process stays switched off")

bug('c22-writer-comment', 'C22', [(I, """        meta_comment = self.file_dict['MetaData']['MetaComment']
""", """        meta_comment = self.file_dict['MetaData'].pop('MetaComment', "")
"""), (I, """            raise ValueError("extension" +
                             "{} not supported".format(self.extension) +
                             ", supported extensions are (.yml|.csv|.txt)")


    def _write_text""", """            raise ValueError("extension " +
                             "{} not supported".format(self.extension) +
                             ", supported extensions are (.yml|.csv|.txt)")
        self.file_dict['MetaData']['MetaComment'] = meta_comment


    def _write_text""")], """
mat = Material(file_path=put('a.txt', '# a comment\\n' + table(2.5)))
out = os.path.join(DB, 'out.txt')
writer = Writer(out, mat)
real, count = np.savetxt, []
def savetxt(*args, **kw):
    if not count:
        count.append(1)
        raise MemoryError()
    return real(*args, **kw)
np.savetxt = savetxt
try:
    writer.write_file()
    fail('the write did not fail')
except MemoryError:
    pass
writer.write_file()
expect('a comment' in open(out).read(), 'the comment is lost')
""", "a write that fails and is repeated with the same writer", "the header comment is lost by the second write")

bug('c22-alias-move', 'C22', [(C, """        if alias in self.database.loc[:, 'Alias'].values:
            if not""", """        column = self.database.columns.get_loc('Alias')
        previous = self.database['Alias'].iloc[index]
        self.database.iloc[index, column] = ""
        if alias in self.database.loc[:, 'Alias'].values:
            if not"""), (C, """            if not self.database['Alias'].iloc[index] == alias:
                raise""", """            if not previous == alias:
                raise"""), (C, "already in use. Failed to", "already in use by another row. Failed to"), (C, """        column = self.database.columns.get_loc('Alias')
        self.database.iloc[index, column] = alias

    def""", """        self.database.iloc[index, column] = alias

    def""")], """
for i in range(2):
    put('UserData/m%d.txt' % i, table(1.5 + i))
cat = Catalogue(conf(), rebuild='All')
cat.register_alias(0, 'one')
cat.register_alias(1, 'two')
try:
    cat.register_alias(1, 'one')
    fail('not refused')
except ValueError:
    pass
expect(list(cat.get_database().Alias) == ['one', 'two'], 'the aliases are %r' % list(cat.get_database().Alias))
""", "a row that has an alias and is refused another one that is taken", "the row loses the alias it had")

bug('c22-grid-lost', 'C22', [(C, """        self.database = self.qgrid_widget.get_changed_df()
""", """        widget, self.qgrid_widget = self.qgrid_widget, None
        self.database = widget.get_changed_df()
        self.qgrid_widget = widget
""")], """
import types
fail_once = [True]
class Grid(object):
    def __init__(self, frame):
        self.frame = frame.copy()
    def get_changed_df(self):
        if fail_once.pop() if fail_once else False:
            raise MemoryError()
        return self.frame.copy()
package = types.ModuleType('qgrid')
package.show_grid = lambda frame, **kw: Grid(frame)
sys.modules['qgrid'] = package
put('UserData/m.txt', table(1.5))
cat = Catalogue(dict(conf(), Interactive=True), rebuild='All')
grid = cat.edit_interactive()
grid.frame.iloc[0, 4] = 'edited'
try:
    cat.save_interactive()
    fail('did not fail')
except MemoryError:
    pass
cat.save_interactive()
expect(cat.get_database().Comment.iloc[0] == 'edited', 'the edit is lost')
""", "taking over the edits of the grid is interrupted", "the grid is forgotten and the edits can no longer be saved")

bug('c22-partial-extend', 'C22', [(D, """        new_range = np.array(base_spectrum.values)
""", """        new_range = base_spectrum.values
"""), (D, """        if extrap_val < base_range[0]:
            base_range[0] = extrap_val
        elif extrap_val > base_range[1]:
            base_range[1] = extrap_val
        else:""", """        if extrap_val < np.min(base_range):
            base_range[0] = extrap_val
        elif extrap_val > np.max(base_range):
            base_range[1] = extrap_val
        else:"""),  (D, """        extrap_spectrum = self.get_extrap_spectrum(extended_spectrum)
""", """        base_range = spectral_data.valid_range.values.copy()
        extrap_spectrum = self.get_extrap_spectrum(extended_spectrum)
        extrap_spectrum.values = extrap_spectrum.values.copy()
        spectral_data.valid_range.values[:] = base_range
""")], """
mat = Material(file_path=put('a.txt', table(2.5)))
try:
    mat.extrapolate(Spectrum(np.array([300.0, 600.0]), spectrum_type='wavelength', unit='nm'))
    fail('600 nm is inside')
except ValueError:
    pass
try:
    mat.get_nk_data(np.array([350e-9, 500e-9]))
    fail('350 nm is evaluated')
except ValueError as err:
    expect('valid range' in str(err), 'another error: %s' % err)
""", "an extrapolation of which the second value is refused", "the valid range of the material has already grown")
