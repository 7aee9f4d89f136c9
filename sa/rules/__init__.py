"""Which module decides which property."""
import importlib

TABLE = {
    'C01': ('sync', 'c01'),
    'C02': ('sync', 'c02'),
    'C03': ('wait', 'c03'),
    'C04': ('wait', 'c04'),
    'C05': ('prim', 'c05'),
    'C06': ('prim', 'c06'),
    'C07': ('order', 'c07'),
    'C08': ('containers', 'c08'),
    'C09': ('containers', 'c09'),
    'C10': ('rc', 'c10'),
    'C11': ('vectors', 'c11'),
    'C12': ('owner', 'c12'),
    'C13': ('bitfield', 'c13'),
    'C14': ('coders', 'c14'),
    'C15': ('values', 'c15'),
    'C16': ('sqlstmt', 'c16'),
    'C17': ('config', 'c17'),
    'C18': ('config', 'c18'),
    'C19': ('search', 'c19'),
    'C20': ('sqltext', 'c20'),
    'C21': ('fmtbuf', 'c21'),
    'C22': ('logger', 'c22'),
    'C23': ('logger', 'c23'),
    'C24': ('memory', 'c24'),
    'C25': ('memory', 'c25'),
    'C26': ('memory', 'c26'),
    'C27': ('unix', 'c27'),
    'C28': ('unix', 'c28'),
    'C29': ('sockets', 'c29'),
    'C30': ('report', 'c30'),
    'C31': ('thread', 'c31'),
    'C32': ('values', 'c32'),
    'C33': ('values', 'c33'),
    'C34': ('order', 'c34'),
    'C38': ('bounds', 'c38'),
}


def run(cx):
    mod, fn = TABLE[cx.prop]
    getattr(importlib.import_module('sa.rules.' + mod), fn)(cx)
