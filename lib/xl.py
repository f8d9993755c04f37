"""A stand-in spreadsheet engine for pandas (no engine is installed here): a workbook is a zip archive that holds, for
each sheet in order of creation, its cells.  It is registered under the name of the default engine, so that code under test uses it
through the public pandas interface without naming an engine."""
import json
import math
import zipfile
import pandas as pd
from pandas.io.excel import _base
from pandas.io.excel._util import _writers

BAD = set('[]:*?/\\')


class Writer(pd.ExcelWriter):
    _engine = 'openpyxl'
    _supported_extensions = ('.xlsx',)
    opened = []

    def __init__(self, path, engine=None, date_format=None, datetime_format=None, mode='w', storage_options=None,
                 if_sheet_exists=None, engine_kwargs=None, **kw):
        super().__init__(path, mode='w', storage_options=storage_options)
        self._book = {}
        self.n_saved = 0
        Writer.opened.append(self)

    @property
    def book(self):
        return self._book

    @property
    def sheets(self):
        return self._book

    def _write_cells(self, cells, sheet_name=None, startrow=0, startcol=0, freeze_panes=None, autofilter_range=None):
        name = self._get_sheet_name(sheet_name)
        if not 1 <= len(name) <= 31 or BAD & set(name):
            raise ValueError(f'invalid sheet name {name!r}')
        s = self._book.setdefault(name, [])
        for c in cells:
            v, _ = self._value_with_fmt(c.val)
            s.append((startrow + c.row, startcol + c.col, v))

    def _save(self):
        if not self._book:
            raise IndexError('At least one sheet must be visible')
        self.n_saved += 1
        with zipfile.ZipFile(self._handles.handle, 'w') as z:
            z.writestr('xl/workbook.xml', json.dumps(list(self._book.items())))


class Book(dict):
    pass


class Reader(_base.BaseExcelReader):
    @property
    def _workbook_class(self):
        return Book

    def load_workbook(self, f, engine_kwargs):
        with zipfile.ZipFile(f) as z:
            return Book(json.loads(z.read('xl/workbook.xml')))

    @property
    def sheet_names(self):
        return list(self.book)

    def get_sheet_by_name(self, name):
        return self.book[name]

    def get_sheet_by_index(self, i):
        return self.book[self.sheet_names[i]]

    def get_sheet_data(self, sheet, rows=None):
        if not sheet:
            return []
        nr, nc = max(c[0] for c in sheet) + 1, max(c[1] for c in sheet) + 1
        out = [['' for _ in range(nc)] for _ in range(nr)]
        for r, c, v in sheet:
            out[r][c] = '' if isinstance(v, float) and math.isnan(v) else v
        return out[:rows]


def install():
    _writers['openpyxl'] = Writer
    _writers.pop('xlsxwriter', None)
    _base.ExcelFile._engines['openpyxl'] = Reader
    pd.set_option('io.excel.xlsx.writer', 'openpyxl')
    pd.set_option('io.excel.xlsx.reader', 'openpyxl')
