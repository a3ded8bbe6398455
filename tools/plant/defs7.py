I, C, M, S, D, G = 'io.py', 'catalogue.py', 'material.py', 'spectrum.py', 'spectral_data.py', 'config.py'

bug('c02-thread', 'C02', [(C, """        file structure\"\"\"
        with replace_file(os.path.join(self.base_path,
                                       self.file_name)) as temp_path:
            self.database.to_csv(temp_path,
                                 index=False, index_label='Index')
""", """        file structure, in the background\"\"\"
        import threading
        worker = threading.Thread(target=self._store)
        worker.start()
        worker.join()

    def _store(self):
        with replace_file(os.path.join(self.base_path,
                                       self.file_name)) as temp_path:
            self.database.to_csv(temp_path,
                                 index=False, index_label='Index')
""")], """
import threading
threading.excepthook = lambda *args: None
put('UserData/a.txt', table(1.5))
cat = Catalogue(conf(), rebuild='All')
cat.save_to_file()
cat.register_alias(0, 'new')
real = os.replace
def broken(*args):
    raise OSError(28, 'No space left on device')
os.replace = broken
try:
    cat.save_to_file()
    ok = True
except OSError:
    ok = False
os.replace = real
stored = Catalogue(conf()).get_database()['Alias'].tolist()
expect(not ok or stored == ['new'], 'the save returned but %r is stored' % stored)
""", "an I/O error while the catalogue is saved", "the error ends a background thread and the save returns normally")

bug('c02-atexit', 'C02', [(C, """        file structure\"\"\"
        with replace_file(os.path.join(self.base_path,
                                       self.file_name)) as temp_path:
            self.database.to_csv(temp_path,
                                 index=False, index_label='Index')
""", """        file structure; repeated saves are collected until the end of the
        session\"\"\"
        if not getattr(self, '_pending', False) and self._stored_once():
            import atexit
            atexit.register(self._store)
            self._pending = True
            return
        self._store()

    def _stored_once(self):
        once, self._once = getattr(self, '_once', False), True
        return once

    def _store(self):
        self._pending = False
        with replace_file(os.path.join(self.base_path,
                                       self.file_name)) as temp_path:
            self.database.to_csv(temp_path,
                                 index=False, index_label='Index')
""")], """
put('UserData/a.txt', table(1.5))
cat = Catalogue(conf(), rebuild='All')
cat.save_to_file()
cat.register_alias(0, 'new')
cat.save_to_file()
got = Catalogue(conf()).get_database()['Alias'].tolist()
expect(got == ['new'], 'the save returned but %r is stored' % got)
""", "a second save in one session, and a process that ends without running its exit handlers", "a save that returned is lost")

bug('c06-alias-map', 'C06', [(C, """        \"\"\"set the pandas data frame\"\"\"
        self.database = database
""", """        \"\"\"set the pandas data frame\"\"\"
        if list(database.columns) != list(self.database.columns):
            self._rows = None
        self.database = database
"""), (C, """            bool_array = self.database.Alias.values == identifier
            bool_list = bool_array.tolist()
            row_index = np.flatnonzero(bool_list)
            if row_index.size == 0:
""", """            rows = getattr(self, '_rows', None)
            if rows is None or len(rows[0]) != self.database.shape[0] \\
               or identifier not in rows[1]:
                aliases = self.database.Alias.tolist()
                rows = (aliases, {})
                for i, alias in enumerate(aliases):
                    rows[1].setdefault(alias, i)
                self._rows = rows
            row_index = np.array([rows[1][identifier]] if identifier in rows[1]
                                 else [], dtype=int)
            if row_index.size == 0:
""")], """
put('UserData/a.txt', table(1.5))
put('UserData/b.txt', table(2.5))
cat = Catalogue(conf(), rebuild='All')
cat.set_database(cat.get_database().sort_values('Path', ignore_index=True))
cat.register_alias(0, 'x')
cat.get_material('x')
cat.set_database(cat.get_database().sort_values('Path', ascending=False, ignore_index=True))
got = n_of(cat.get_material('x'))
expect(got == 1.5, 'alias x belongs to n=1.5 but gave %r' % got)
""", "asking for an alias, sorting the table, asking again", "the alias leads to the row that was there before")

bug('c09-raw-read', 'C09', [(I, """        with open(self.file_path, 'r', encoding='utf-8') as fpt:
            return fpt.read()

    def _read_text_data(self, text):
        \"\"\"read data stored in a .txt, .csv or .nk file.\"\"\"
        fname, ext = os.path.splitext(self.file_path)
        try:
            if ext == '.txt':
                try:
""", """        with open(self.file_path, 'rb', buffering=0) as fpt:
            data = fpt.read(os.fstat(fpt.fileno()).st_size)
        return StringIO(data.decode('utf-8'), newline=None).read()

    def _read_text_data(self, text):
        \"\"\"read data stored in a .txt, .csv or .nk file.\"\"\"
        ext = os.path.splitext(self.file_path)[1]
        try:
            if ext == '.txt':
                try:
""")], """
import io
path = put('a.txt', ''.join('%d 1.5 0.1\\n' % w for w in range(400, 500)))
real = builtins.open
class Slow(io.FileIO):
    def readinto(self, buffer):
        return super().readinto(memoryview(buffer)[:100])
    def read(self, size=-1):
        return super().readall() if size is None or size < 0 else super().read(min(size, 110))
    def readall(self):
        return super().readall()
def slow(file, mode='r', buffering=-1, encoding=None, **kw):
    if str(file) != path:
        return real(file, mode, buffering, encoding, **kw)
    raw = Slow(file, 'r')
    if 'b' in mode and buffering == 0:
        return raw
    buf = io.BufferedReader(raw)
    return buf if 'b' in mode else io.TextIOWrapper(buf, encoding)
builtins.open = slow
got = Reader(path).read_file()['Datasets'][0]['Data'].shape
expect(got == (100, 3), 'read %r' % (got,))
""", "an operating system that delivers a file in several pieces", "only the first piece is read")

bug('c12-warnings', 'C12', [(M, """import codecs
import copy
""", """import codecs
import copy
import warnings
"""), (M, """        if self.data['complex'] is None:
            real = self.data['real'].evaluate(spectrum)
            imag = 1j*self.data['imag'].evaluate(spectrum)
            complex_val = real+imag
        else:
            complex_val = self.data['complex'].evaluate(spectrum)

        if self.data['name'] == 'eps':
""", """        with warnings.catch_warnings():
            warnings.simplefilter('ignore', RuntimeWarning)
            if self.data['complex'] is None:
                real = self.data['real'].evaluate(spectrum)
                imag = 1j*self.data['imag'].evaluate(spectrum)
                complex_val = real+imag
            else:
                complex_val = self.data['complex'].evaluate(spectrum)

        if self.data['name'] == 'eps':
""")], """
import threading
mat = Material(fixed_nk=complex(1.5, 0.1))
inside, go, done = threading.Event(), threading.Event(), []
part = mat.data['real']
real = type(part).evaluate
def evaluate(self, spectrum):
    if self is part and threading.current_thread().name == 'B':
        inside.set()
        go.wait(20)
    return real(self, spectrum)
type(part).evaluate = evaluate
before = str(warnings.filters)
a_in, a_go = threading.Event(), threading.Event()
def first(self, spectrum):
    if self is part and threading.current_thread().name == 'A':
        a_in.set()
        a_go.wait(20)
    return evaluate(self, spectrum)
type(part).evaluate = first
one = threading.Thread(target=mat.get_nk_data, args=(5e-7,), name='A')
two = threading.Thread(target=mat.get_nk_data, args=(6e-7,), name='B')
one.start(); a_in.wait(20)
two.start(); inside.wait(20)
a_go.set(); one.join()
go.set(); two.join()
expect(str(warnings.filters) == before, 'the warnings of the process are now handled by %s' % warnings.filters[:2])
""", "two threads evaluating at the same time, the first one leaving before the second", "warnings of the whole process stay switched off")

bug('c02-later', 'C02', [(C, """        file structure\"\"\"
        with replace_file(os.path.join(self.base_path,
                                       self.file_name)) as temp_path:
            self.database.to_csv(temp_path,
                                 index=False, index_label='Index')
""", """        file structure, without making the caller wait\"\"\"
        import threading
        threading.Thread(target=self._store, args=(self.database,)).start()

    def _store(self, database):
        with replace_file(os.path.join(self.base_path,
                                       self.file_name)) as temp_path:
            database.to_csv(temp_path,
                            index=False, index_label='Index')
""")], """
import time, signal
put('UserData/a.txt', table(1.5))
cat = Catalogue(conf(), rebuild='All')
cat.save_to_file()
time.sleep(1)
real = pd.DataFrame.to_csv
def slow(*args, **kw):
    time.sleep(0.5)
    return real(*args, **kw)
pd.DataFrame.to_csv = slow
cat.register_alias(0, 'new')
cat.save_to_file()
got = Catalogue(conf()).get_database()['Alias'].tolist()
time.sleep(1)
expect(got == ['new'], 'the save returned but %r is stored' % got)
""", "asking for the stored catalogue, or a crash, right after a save returned", "a save returns before anything is stored")
