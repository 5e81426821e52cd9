'''Where each check lives.'''
import importlib

MODULES = {
    'C01': 'bed', 'C02': 'bed', 'C03': 'bed', 'C04': 'bed', 'C05': 'bed', 'C06': 'bed',
    'C07': 'formats', 'C24': 'formats', 'C22': 'formats',
    'C08': 'window', 'C09': 'window', 'C10': 'window',
    'C11': 'datasets', 'C12': 'agreement', 'C13': 'agreement',
    'C14': 'matrix', 'C15': 'matrix',
    'C16': 'datasets', 'C17': 'files', 'C18': 'files',
    'C19': 'namespace', 'C20': 'purity', 'C21': 'threads',
    'C23': 'numbers', 'C25': 'numbers', 'C26': 'firsttouch', 'C27': 'interrupts',
}


def load(prop):
    module = importlib.import_module('mc.checks.' + MODULES[prop])
    return getattr(module, prop)()
