I, C, M, S, D, G = 'io.py', 'catalogue.py', 'material.py', 'spectrum.py', 'spectral_data.py', 'config.py'

bug('c13-sorted', 'C13', [(D, """                                      kind=self.interp_order)""",
                           """                                      kind=self.interp_order,
                                      assume_sorted=True)""")], """
put('UserData/a.txt', '# SPECTRUMTYPE: wavelength\\n# UNIT: nm\\n# DATATYPE: tabulated nk\\n'
    '700 1.4 0.1\\n600 1.5 0.2\\n500 1.6 0.3\\n400 1.7 0.4\\n')
cat = Catalogue(conf(), rebuild='All')
got = complex(cat.get_material(0).get_nk_data(np.array([450e-9]))[0])
if abs(got - (1.65 + 0.35j)) > 1e-6:
    fail('a table from high to low wavelengths evaluates to %r' % got)
""", 'a data file whose table runs from high to low values', 'interpolation of descending tables is wrong')

bug('c07-rows', 'C07', [(I, """    if validate_table(numeric_table) is False:
""", """    if not validate_table(numeric_table):
""")], """
table = np.array([[700., 1.4, 0.1], [600., 1.5, 0.2], [500., 1.6, 0.3], [400., 1.7, 0.4]])
mat = Material(tabulated_nk=table, spectrum_type='wavelength', unit='nm')
path = os.path.join(TMP, 'x.yml')
Writer(path, mat).write_file()
back = Material(file_path=path)
try:
    got = complex(back.get_nk_data(np.array([450e-9]))[0])
except ValueError as exc:
    fail('the material read back has another range: %s' % exc)
if abs(got - (1.65 + 0.35j)) > 1e-6:
    fail('the material read back has %r' % got)
""", 'a material made from a table that runs from high to low values, written and read back',
    'all rows but the first are lost')
