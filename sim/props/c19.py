"""C19: what is done in the interactive grid counts exactly from the moment it is saved"""
import importlib.machinery
import sys
import types

from .. import gen
from .common import *

BUDGET = {'quick': 1600, 'thorough': 30000}
VARIANTS = {'quick': 4, 'thorough': 10}
CALLS = 0.3
SHRINK = ('ops',)
CAT = 'db/cat.csv'


class Grid(object):
    """stands for a qgrid widget: shows its own copy of the table to the user"""

    def __init__(self, frame, options):
        self.frame = frame.copy()
        self.options = dict(options or {})

    def get_changed_df(self):
        return self.frame.copy()


class Qgrid(types.ModuleType):
    """stands for the qgrid package"""

    def __init__(self):
        types.ModuleType.__init__(self, 'qgrid')
        self.__spec__ = importlib.machinery.ModuleSpec('qgrid', None)
        self.made = []

    def show_grid(self, data_frame, show_toolbar=None, precision=None, grid_options=None, **kw):
        self.made.append(Grid(data_frame, grid_options))
        return self.made[-1]


def edit(rng):
    do = rng.choice(['cell', 'cell', 'cell', 'filter', 'sort', 'delete', 'add'])
    out = {'do': do, 'row': rng.randrange(50)}
    if do == 'cell':
        out['col'] = rng.choice(gen.COLUMNS[1:])
        out['value'] = rng.choice([None, gen.double(rng), gen.double(rng)]) if out['col'] in gen.NUMERIC else gen.text(rng, multiline=True)
        if out['col'] in ('Module', 'SpectrumType', 'Unit'):
            out['col'] = 'Comment'
    elif do == 'filter':
        out['mask'] = rng.randrange(1, 1 << 8)
    elif do == 'sort':
        out.update(col=rng.choice(['Name', 'Path', 'Comment', 'N_Reference']), desc=rng.random() < 0.5)
    elif do == 'add':
        out['rows'] = gen.catalogue_rows(rng, 1, aliases=False)
    return out


def generate(rng, tier):
    ops = []
    kinds = ['view', 'edit', 'edit', 'edit', 'user', 'user', 'user', 'keep', 'keep', 'keep', 'save', 'save', 'alias', 'table',
             'reopen', 'restart', 'off', 'missing', 'second', 'savefail', 'savefail']
    for i in range(rng.randint(3, 14)):
        do = rng.choice(kinds)
        op = {'id': 'o%d' % i, 'do': do, 'row': rng.randrange(50)}
        if do == 'user':
            op['edits'] = [edit(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
        elif do == 'alias':
            op['alias'] = 'al-%d' % i
        elif do == 'table':
            op['rows'] = gen.catalogue_rows(rng, rng.choice([1, 2, 4]))
        elif do == 'off':
            op['call'] = rng.choice(['view_interactive', 'edit_interactive', 'save_interactive'])
        ops.append(op)
        if do == 'edit' and rng.random() < 0.6:
            ops.append({'id': 'o%du' % i, 'do': 'user', 'row': 0, 'edits': [edit(rng) for _ in range(rng.choice([1, 2]))]})
            if rng.random() < 0.6:
                ops.append({'id': 'o%dk' % i, 'do': 'keep', 'row': 0})
    return {'first': gen.catalogue_rows(rng, rng.choice([1, 2, 3, 5]), aliases=True), 'ops': ops, 'knobs': random_knobs(rng)}


def perturb(plan, res, rng):
    plan = clone(plan)
    targets = {op['id'] + '.f' for op in plan['ops'] if op['do'] == 'savefail'}
    if not targets:
        return None
    plan['faults'] = place_faults(res.trace, rng, ops=targets, errs=[
        'eio', 'enospc', 'eacces', 'emfile', 'intr', 'crash', 'crash_after', 'erofs', 'mem'], count=rng.randint(1, 2))
    return plan


class Play(object):
    def __init__(self, run, plan, qgrid):
        self.run, self.world, self.qgrid = run, run.world, qgrid
        self.config = gen.config(run.world.path('db'), name='cat.csv')
        self.config['Interactive'] = True
        self.start()
        cat = self.open('init', rebuild='All')
        cat.set_database(frame_of(plan['first']))
        run.must('init.s', cat.save_to_file, 'saving')
        self.stored = clone(plan['first'])
        self.reopen('first')

    def start(self):
        self.sut = self.run.load()

    def open(self, oid, **kw):
        return self.run.must(oid, lambda: self.sut.Catalogue(clone(self.config), **kw), 'opening an interactive catalogue')

    def reopen(self, oid):
        if self.run.procs and not self.run.alive():
            self.start()
        self.cat = self.open(oid)
        self.mem = clone(self.stored)
        self.grid = self.shown = None
        self.look('after opening')

    def look(self, when):
        """the session holds what it should, and so does the disk"""
        run = self.run
        diff = table_diff(rows_of(self.cat.get_database()), self.mem)
        run.check(diff is None, 'table-changed', lambda: 'the table of the session %s: %s' % (when, diff))
        run.check(self.world.get(CAT) == self.disk if hasattr(self, 'disk') else True, 'disk-changed',
                  lambda: 'the stored catalogue changed %s' % when)
        if self.grid is not None:
            diff = table_diff(rows_of(self.grid.frame), self.shown)
            run.check(diff is None, 'grid-changed', lambda: 'what the grid shows changed by itself %s: %s' % (when, diff))

    def user(self, op):
        """the user works in the grid"""
        import numpy as np
        import pandas as pd
        grid, shown = self.grid, self.shown
        for ed in op['edits']:
            if not shown and ed['do'] != 'add':
                continue
            row = ed['row'] % len(shown) if shown else 0
            if ed['do'] == 'cell':
                value = ed['value']
                grid.frame.iloc[row, list(grid.frame.columns).index(ed['col'])] = value
                shown[row][ed['col']] = value
            elif ed['do'] == 'filter':
                keep = [bool(ed['mask'] >> (i % 8) & 1) for i in range(len(shown))]
                grid.frame = grid.frame[keep]
                shown = [r for r, k in zip(shown, keep) if k]
            elif ed['do'] == 'delete':
                grid.frame = grid.frame.iloc[[i for i in range(len(shown)) if i != row]]
                del shown[row]
            elif ed['do'] == 'sort':
                order = sorted(range(len(shown)), key=lambda i: str(shown[i][ed['col']]), reverse=ed['desc'])
                grid.frame = grid.frame.iloc[order]
                shown = [shown[i] for i in order]
            elif ed['do'] == 'add':
                grid.frame = pd.concat([grid.frame, frame_of(ed['rows'])], ignore_index=True)
                shown = shown + clone(ed['rows'])
        self.shown = shown

    def step(self, op):
        run, do, oid = self.run, op['do'], op['id']
        self.disk = self.world.get(CAT)
        if do in ('view', 'edit', 'second'):
            call = self.cat.view_interactive if do == 'view' else self.cat.edit_interactive
            widget = run.must(oid, call, 'opening the grid')
            run.check(isinstance(widget, Grid), 'no-grid', lambda: 'opening the grid gave a %s' % type(widget).__name__)
            diff = table_diff(rows_of(widget.frame), self.mem)
            run.check(diff is None, 'grid-shows', lambda: 'the grid shows another table: %s' % diff)
            run.check(widget.options.get('editable', True) is (do != 'view'), 'editable',
                      lambda: 'a grid for %s has editable=%r' % (do, widget.options.get('editable')))
            self.grid, self.shown, self.readonly = widget, clone(self.mem), do == 'view'
        elif do == 'user' and self.grid is not None:
            if not self.readonly:
                self.user(op)
        elif do == 'keep':
            if self.grid is None:
                out = run.call(oid, self.cat.save_interactive)
                run.world.probe('nothing to save' if not out.ok else 'saved without a grid')
            else:
                run.must(oid, self.cat.save_interactive, 'taking over the edits')
                self.mem = clone(self.shown)
                run.world.probe('edits taken over')
        elif do == 'save':
            run.must(oid, self.cat.save_to_file, 'saving')
            self.stored, self.disk = clone(self.mem), self.world.get(CAT)
            self.later(oid)
        elif do == 'savefail':
            out = run.call(oid + '.f', self.cat.save_to_file)
            outcome_ok_or_fault(out, 'save-failed', 'saving')
            sut = run.load()
            cat = run.must(oid + '.j', lambda: sut.Catalogue(clone(self.config)), 'opening after a failed save', proc='other')
            got = rows_of(cat.get_database())
            new, old = table_diff(got, self.mem) is None, table_diff(got, self.stored) is None
            run.check(new or old and not out.ok, 'neither-version', lambda: 'after a save that %s the catalogue is neither '
                      'the old nor the new one' % out.describe())
            if new:
                self.stored = clone(self.mem)
            self.disk = self.world.get(CAT)
            if not run.alive():
                self.reopen(oid + '.o')
        elif do == 'alias' and self.mem:
            if not any(r['Alias'] == op['alias'] for r in self.mem):
                row = op['row'] % len(self.mem)
                run.must(oid, lambda: self.cat.register_alias(row, op['alias']), 'registering an alias')
                self.mem[row]['Alias'] = op['alias']
        elif do == 'table':
            self.cat.set_database(frame_of(op['rows']))
            self.mem = clone(op['rows'])
        elif do == 'reopen':
            self.reopen(oid)
        elif do == 'restart':
            run.kill('main')
            self.reopen(oid)
        elif do == 'off':
            conf = dict(clone(self.config), Interactive=False)
            cat = run.must(oid, lambda: self.sut.Catalogue(conf), 'opening a catalogue')
            before = len(self.qgrid.made)
            out = run.call(oid + '.x', getattr(cat, op['call']))
            run.check(not out.ok and len(self.qgrid.made) == before, 'not-refused', lambda: '%s worked although interactivity '
                      'is disabled' % op['call'])
            diff = table_diff(rows_of(cat.get_database()), self.stored)
            run.check(diff is None, 'table-changed', lambda: 'a refused %s changed the table: %s' % (op['call'], diff))
        elif do == 'missing':
            keep = sys.modules['qgrid']
            sys.modules['qgrid'] = None         # not installed
            try:
                out = run.call(oid, lambda: self.sut.Catalogue(clone(self.config)))
                run.check(not out.ok, 'missing-package', 'an interactive catalogue was opened without the grid package')
                conf = dict(clone(self.config), Interactive=False)
                run.must(oid + '.n', lambda: self.sut.Catalogue(conf), 'opening a catalogue without the grid package')
            finally:
                sys.modules['qgrid'] = keep
        self.look('after %s' % do)
        run.state(do, len(self.mem), self.grid is not None, self.shown == self.mem if self.shown is not None else None)

    def later(self, oid):
        sut = self.run.load()
        cat = self.run.must(oid + '.l', lambda: sut.Catalogue(clone(self.config)), 'opening the saved catalogue', proc='later')
        diff = table_diff(rows_of(cat.get_database()), self.stored)
        self.run.check(diff is None, 'saved-differs', lambda: 'a later session opens another table than was saved: %s' % diff)


def execute(run, plan):
    run.world.mkdir('db/UserData')
    qgrid = Qgrid()
    before = sys.modules.get('qgrid', run)
    sys.modules['qgrid'] = qgrid
    try:
        play = Play(run, plan, qgrid)
        for op in plan['ops']:
            play.step(op)
    finally:
        if before is run:
            del sys.modules['qgrid']
        else:
            sys.modules['qgrid'] = before


def simplify(plan):
    for i in range(len(plan['first'])):
        if len(plan['first']) > 1:
            cand = clone(plan)
            del cand['first'][i]
            yield cand
    for i, op in enumerate(plan['ops']):
        if op['do'] == 'user' and len(op['edits']) > 1:
            for j in range(len(op['edits'])):
                cand = clone(plan)
                del cand['ops'][i]['edits'][j]
                yield cand
