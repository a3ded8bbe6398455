#!/usr/bin/env python3
"""refactor.py [names] [--checks C01,C02]: behaviour preserving rewrites of the
repository; every check has to stay quiet on each of them."""
import os, re, shutil, subprocess, sys
W = '/tmp/refw'
R = {}


def ref(name):
    def deco(fn):
        R[name] = fn
        return fn
    return deco


class Src(object):
    def __init__(self, name):
        self.path = os.path.join(W, 'src/dispersion', name)
        self.text = open(self.path, encoding='utf-8').read()

    def sub(self, old, new):
        assert self.text.count(old) == 1, (self.path, self.text.count(old), old[:80])
        self.text = self.text.replace(old, new)
        return self

    def cut(self, start, end, new):
        i = self.text.index(start)
        j = self.text.index(end, i + len(start))
        self.text = self.text[:i] + new + self.text[j:]
        return self

    def save(self):
        open(self.path, 'w', encoding='utf-8').write(self.text)


@ref('io-tempfile')
def _():
    s = Src('io.py')
    s.cut('    file_path = os.path.realpath(file_path)\n    temp_path = "{}', 'def write_yaml_file', '''    file_path = os.path.realpath(file_path)
    handle, temp_path = tempfile.mkstemp(suffix='.tmp', prefix='.disp-', dir=os.path.dirname(file_path))
    os.close(handle)
    done = False
    try:
        yield temp_path
        handle = os.open(temp_path, os.O_RDWR)
        try:
            os.fsync(handle)
        finally:
            os.close(handle)
        try:
            shutil.copymode(file_path, temp_path)
        except FileNotFoundError:
            os.chmod(temp_path, 0o644)
        os.rename(temp_path, file_path)
        done = True
    finally:
        if not done:
            try:
                os.unlink(temp_path)
            except FileNotFoundError:
                pass

''')
    s.cut("    with open(file_path, 'r', encoding=\"utf-8\") as fpt:\n        if USE_RUAMEL", 'def read_yaml_string', '''    text = pathlib.Path(file_path).read_text(encoding="utf-8")
    return read_yaml_string(text)

''')
    s.sub('import tempfile\n', 'import tempfile\nimport pathlib\n')
    s.cut("    with open(file_path, 'r', encoding='utf8') as fpt:\n        current_text", 'def valid_file_name', '''    path = pathlib.Path(file_path)
    current_text = path.read_text(encoding='utf8')
    lines = text.rstrip('\\n\\r').split('\\n')
    head = ''.join(comment_char + line + '\\n' for line in lines)
    if extra_line:
        head += '\\n'
    path.write_text(head + current_text, encoding='utf8')

''')
    s.cut("        with open(self.file_path, 'r', encoding='utf-8') as fpt:\n            return fpt.read()", '    def _read_text_data', '''        with io.open(self.file_path, 'rb') as fpt:
            raw = fpt.read()
        return raw.decode('utf-8').replace('\\r\\n', '\\n').replace('\\r', '\\n')

''')
    s.sub('import sys\n', 'import sys\nimport io\n') if 'import sys\n' in s.text else None
    s.save()


@ref('io-parse')
def _():
    s = Src('io.py')
    s.cut("        fname, ext = os.path.splitext(self.file_path)\n        try:\n", "        data_dict = self._create_default_data_dict()\n        data_dict['Data'] = data", '''        options = {'.txt': {}, '.csv': {'delimiter': ','},
                   '.nk': {'comments': ';'}}[self.extension]
        data = np.loadtxt(text.splitlines(), ndmin=2, **options)
''')
    s.cut("        numeric_table = []\n", "    else:\n        raise TypeError(\"table of", '''        rows = [row for row in table.split('\\n') if row.strip()]
        numeric_table = np.array([[float(col) for col in row.split()] for row in rows])

''')
    s.cut("    n_cols = tabulated_data.shape[1]", "def read_yaml_file", '''    keep, last = [0], tabulated_data[0, 0]
    for i, value in enumerate(tabulated_data[1:, 0], 1):
        if value > last:
            keep.append(i)
            last = value
    return tabulated_data[keep, :]

''')
    s.cut("        np.savetxt(file_path, data,", "    def _write_yaml_file", '''        lines = [comments + line for line in header.split('\\n')]
        for row in data:
            lines.append(delimiter.join("%.15g" % value for value in row))
        with open(file_path, 'w', encoding='utf-8', newline='') as fpt:
            for line in lines:
                fpt.write(line + '\\n')

''')
    s.cut("        comment = []\n        with StringIO(text)", "    def _read_text_file", '''        comment = []
        for line in text.split('\\n'):
            if not line.startswith(('#', ';')):
                break
            comment.append(line[1:])
        return comment

''')
    s.cut("            kwd_arg = line.split(\":\")", "        if multi_line_comment != ", '''            kwd, colon, arg = line.partition(":")
            key = self._match(kwd.upper().lstrip()) if colon else None
            arg = arg.rstrip("\\n\\r").lstrip()
            if key is None:
                multi_line_comment += line + "\\n"
            elif key in Reader.FILE_META_DATA_KEYS:
                file_dict['MetaData'][key] = arg
            else:
                file_dict['Datasets'][0][key] = arg

''')
    s.sub("    def _read_yaml_mat_file(self):", '''    @staticmethod
    def _match(kwd):
        for keys in (Reader.FILE_META_DATA_KEYS, Reader.DATASET_META_DATA_KEYS):
            for key in keys:
                if kwd.startswith(key.upper()):
                    return key
        return None

    def _read_yaml_mat_file(self):''')
    s.save()


@ref('catalogue')
def _():
    s = Src('catalogue.py')
    s.cut("            df = pd.read_csv(os.path.join(self.base_path,", "        if rebuild != 'None'", '''            path = os.path.join(self.base_path, self.file_name)
            with open(path, encoding='utf-8', newline='') as fpt:
                df = pd.read_csv(fpt, dtype=dtypes, na_values=Catalogue.NA_VALUES, keep_default_na=False)

''')
    s.cut("        df_new = pd.DataFrame(columns=Catalogue.META_DATA.keys())\n        for module, valid", "    def view_interactive", '''        frames = [pd.DataFrame(columns=Catalogue.META_DATA.keys())]
        for module, valid in config_modules.items():
            if not valid:
                if rebuild == module:
                    raise ValueError("module {} is disabled".format(rebuild))
                continue
            if not (rebuild == 'All' or module in rebuild):
                frames.append(df[df.Module == module])
                continue
            print("Building {}".format(module))
            frames.append(all_modules[module](os.path.join(self.base_path, module)))
        df_new = frames[0]
        for dframe in frames[1:]:
            df_new = pd.concat([df_new, dframe], sort=False, ignore_index=True)
        return df_new

''')
    s.cut("        with replace_file(os.path.join(self.base_path,", "    def register_alias", '''        target = os.path.join(self.base_path, self.file_name)
        with replace_file(target) as temp_path:
            text = self.database.to_csv(index=False)
            with open(temp_path, 'wb') as fpt:
                fpt.write(text.encode('utf-8'))

''')
    s.cut("        onlyfiles = [f for f in os.listdir(db_path)", "        dframe = pd.DataFrame(columns=Catalogue.META_DATA.keys())\n        database_list = []", '''        with os.scandir(db_path) as entries:
            onlyfiles = sorted(entry.name for entry in entries if entry.is_file())

''')
    s.cut("            bool_array = self.database.Alias.values == identifier", "        elif isinstance(identifier, int):\n            row =", '''            for number, alias in enumerate(self.database['Alias'].tolist()):
                if alias == identifier:
                    row = self.database.iloc[number]
                    break
            else:
                raise ValueError("identifier {} unknown".format(identifier))

''')
    s.cut("        if alias in self.database.loc[:, 'Alias'].values:", "    def get_material", '''        taken = self.database['Alias'].tolist()
        if alias in taken and taken[index] != alias:
            raise ValueError("Alias {} already in use".format(alias))
        self.database.iloc[index, list(self.database.columns).index('Alias')] = alias

''')
    s.cut("        self.rii_loader = {}\n        self.rii_loader['db_path']", "    def _iterate_shelves", '''        base = os.path.join(db_path, "database")
        try:
            data = read_yaml_file(os.path.join(base, "catalog-nk.yml"))
        except FileNotFoundError:
            data = read_yaml_file(os.path.join(base, "library.yml"))
        rows = []
        for shelf in data:
            for book in shelf['content']:
                if "DIVIDER" in book or "BOOK" not in book:
                    continue
                for page in book['content']:
                    if "DIVIDER" in page or "PAGE" not in page:
                        continue
                    row = self._page_row(db_path, book, page)
                    if row is not None:
                        rows.append(row)
        return pd.DataFrame(rows, columns=Catalogue.META_DATA.keys())

    def _reference(self, mat):
        try:
            value = mat.get_nk_data(self.reference_spectrum)
        except ValueError:
            return np.nan, np.nan
        return np.real(value), np.imag(value)

    def _page_row(self, db_path, book, page):
        for folder in ('data', 'data-nk'):
            prefix = os.path.join('database', folder)
            if os.path.isdir(os.path.join(db_path, prefix)):
                break
        else:
            raise ValueError("required subfolder is missing")
        rel_path = os.path.join(prefix, page['data'])
        full_file = os.path.join(db_path, rel_path)
        try:
            mat = Material(file_path=full_file, spectrum_type='wavelength', unit='micrometer')
        except OSError:
            warnings.warn("file {} could not be opened, skipping".format(full_file))
            return None
        lower, upper = mat.get_maximum_valid_range()
        n_ref, k_ref = self._reference(mat)
        return {"Alias": "", "Name": book['BOOK'], "FullName": book['name'], "Author": page['PAGE'],
                "Path": os.path.normpath(rel_path), "Module": "RefractiveIndexInfo",
                'SpectrumType': 'wavelength', 'Unit': 'micrometer', 'SpectrumLowerBound': lower,
                'SpectrumUpperBound': upper, 'Reference': mat.meta_data['Reference'],
                'Comment': mat.meta_data['Comment'], 'N_Reference': n_ref, 'K_Reference': k_ref}

''')
    s.cut("    def _iterate_shelves", "    def read_filmetrics_db", "")
    s.save()


@ref('physics')
def _():
    s = Src('spectrum.py')
    s.cut("    inverse = np.array(values)\n", "def safe_inverse_scalar", '''    inverse = np.array(values)
    for i in np.ndindex(inverse.shape):
        inverse[i] = safe_inverse_scalar(inverse[i])
    return inverse

''')
    s.cut("    if unit == 'nm':\n        converted_values = values*1e-9", "def to_wavelength", '''    scale = {'nm': 1e-9, 'cm': 1e-2, 'um': 1e-6, 'a': 1e-10}
    if unit not in scale:
        return values
    return values*scale[unit]

''')
    s.cut("        valid = False\n        unit_type = \"\"\n", "    def get_type_unit_string", '''        for unit_type in sorted(Spectrum.SPECTRUM_TYPES[spectrum_type]):
            if unit in Spectrum.UNIT_TYPES[unit_type]:
                return unit_type
        raise ValueError("unit [{}] invalid for {}".format(unit, spectrum_type))

''')
    s.save()
    s = Src('spectral_data.py')
    s.cut("        self.interpolation = interp1d(", "    def evaluate", '''        xs, ys = np.array(self.data[:, 0], float), np.array(self.data[:, 1], float)
        self.interpolation = lambda values: np.interp(values, xs, ys)

''')
    s.save()
    s = Src('material.py')
    s.cut("        if isinstance(spectrum, Spectrum):\n            spectrum_values = spectrum.values", "    def get_permittivity", '''        value, name = self._complex(spectrum, spectrum_type, unit)
        return np.sqrt(value) if name == 'eps' else value

    def _complex(self, spectrum, spectrum_type, unit):
        if not isinstance(spectrum, Spectrum):
            spectrum = Spectrum(spectrum, spectrum_type=spectrum_type, unit=unit)
        name = self.data['name']
        if name not in ('nk', 'eps'):
            raise ValueError("data type {} cannot be converted".format(name))
        if self.data['complex'] is not None:
            return self.data['complex'].evaluate(spectrum), name
        imag = self.data['imag'].evaluate(spectrum)
        real = self.data['real'].evaluate(spectrum)
        return real + 1j*imag, name

''')
    s.cut("        if isinstance(spectrum_values, Spectrum):\n            spectrum = spectrum_values", "    def get_maximum_valid_range", '''        value, name = self._complex(spectrum_values, spectrum_type, unit)
        return value**2 if name == 'nk' else value

''')
    s.cut("        if self.data['complex'] is None:\n            real_range_std", "        max_range = np.array([lower, upper])", '''        parts = [self.data['complex']]
        if parts[0] is None:
            parts = [self.data['real'], self.data['imag']]
        lower = max(np.min(part.valid_range.standard_rep) for part in parts)
        upper = min(np.max(part.valid_range.standard_rep) for part in parts)
''')
    s.save()


@ref('config-setup')
def _():
    s = Src('config.py')
    s.sub('import os\n', 'import os\nimport pathlib\n')
    s.cut("    if PLATFORM == 'Windows':\n        user_dir", "def _get_package_dir", '''    if PLATFORM == 'Windows':
        config_dir = pathlib.Path(os.environ["LOCALAPPDATA"]) / "dispersion"
    else:
        config_dir = pathlib.Path(os.environ["HOME"]) / ".config" / "dispersion"
    config_dir.mkdir(parents=True, exist_ok=True)
    return str(config_dir)

''')
    s.cut("    user_dir = _get_user_config_dir()\n    file_path", "    raise ValueError(\"could not locate configuration", '''    for directory in (_get_user_config_dir(), _get_package_dir()):
        if (pathlib.Path(directory) / 'config.yaml').is_file():
            return directory
''')
    s.cut("    yaml_str = ", "def _get_user_config_dir", '''    return {'Path': _get_user_config_dir(), 'File': 'catalogue.csv', 'Interactive': False,
            'WarnMissingPackages': False,
            'Modules': {'UserData': True, 'RefractiveIndexInfo': True},
            'ReferenceSpectrum': {'Value': 632.8, 'SpectrumType': 'wavelength', 'Unit': 'nanometer'}}

''')
    s.save()
    s = Src('scripts/setup_dispersion.py')
    s.cut("    valid_input = False\n    while not valid_input:", "def get_confirmation", '''    while True:
        user_input = input(question.format(default)) or default
        if validator(user_input):
            return user_input
        print("input is not valid")

''')
    s.cut("    confirmed_input = False\n    while not confirmed_input:", "def install_modules", '''    while True:
        reply = input(question)
        if reply in ('y', 'yes'):
            return True
        if reply in ('n', 'no'):
            return False
        print("input invalid")


''')
    s.cut("    for module in conf['Modules']:\n        if module ==", "def install_userdata", '''    for module in list(conf['Modules']):
        wanted = module == "UserData" or get_confirmation("install module {}? [y/n]> ".format(module))
        if wanted:
            module_dir = os.path.join(conf['Path'], module)
            os.makedirs(module_dir, exist_ok=True)
            wanted = install_funcs[module](module_dir) is not False
        conf['Modules'][module] = wanted
    return conf

''')
    s.cut("    confirmed_valid_path = False\n", "    user_dir = _get_user_config_dir()", '''    confirmed = False
    while not confirmed:
        path, confirmed = get_root_dir(conf)
    confirmed = False
    while not confirmed:
        name, confirmed = get_catalogue_name(conf)
    conf.update(Path=path, File=name)
    conf = install_modules(conf)
''')
    s.save()
    s = Src('catalogue.py')
    s.cut("    valid_ans = False\n    while not valid_ans:", "    cat = Catalogue(rebuild='All')", '''    ans = None
    while ans not in ('y', 'n'):
        ans = input("really rebuild and overwrite material catalogue? (y/n) ")
    if ans == 'n':
        return

''')
    s.save()


@ref('locks')
def _():
    """internal locks, lazily built interpolation, caches that are correct"""
    s = Src('catalogue.py')
    s.sub('class Catalogue(object):', 'import threading\n_LOCK = threading.RLock()\n\n\nclass Catalogue(object):')
    s.sub("        with replace_file(os.path.join(self.base_path,", "        with _LOCK, replace_file(os.path.join(self.base_path,")
    s.save()
    s = Src('spectral_data.py')
    s.sub("import re\n", "import re\nimport threading\n_LOCK = threading.Lock()\n")
    s.cut("        self.interpolation = interp1d(", "    def evaluate", '''        self.interpolation = None

''')
    s.sub("        return self.interpolation(values)\n", '''        with _LOCK:
            if self.interpolation is None:
                self.interpolation = interp1d(self.data[:, 0].copy(), self.data[:, 1].copy(),
                                              kind=self.interp_order)
        return self.interpolation(values)
''')
    s.save()
    s = Src('io.py')
    s.sub('''            yaml_obj = YAML()
            yaml_obj.indent(''', '''            yaml_obj = YAML() # one object per call
            yaml_obj.indent(''')
    s.save()


def run(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main(names, checks):
    for name in names:
        shutil.rmtree(W, ignore_errors=True)
        run('cp -a /repo %s' % W)
        R[name]()
        t = run('cd %s && PYTHONPATH=src PYTHONDONTWRITEBYTECODE=1 HOME=/tmp/bughome /opt/venv/bin/python -W ignore -m pytest -q -p no:cacheprovider tests 2>&1 | tail -1' % W)
        print(name, t.stdout.strip(), flush=True)
        for c in checks:
            out = run('SIM_REPO=%s python3 check.py %s' % (W, c), cwd='/verif')
            if out.returncode:
                print('  ', c, 'exit', out.returncode, (out.stdout + out.stderr)[:600], flush=True)
    shutil.rmtree(W, ignore_errors=True)


if __name__ == '__main__':
    checks = ['C%02d' % i for i in range(1, 14)]
    args = sys.argv[1:]
    for a in args:
        if a.startswith('--checks='):
            checks = a[9:].split(',')
    names = [a for a in args if not a.startswith('--')]
    main(names or list(R), checks)
