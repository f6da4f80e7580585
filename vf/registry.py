"""Which contract modules decide which property."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'contracts'))

MODULES = {
    'C01': ['c01_adjoint'],
    'C02': ['c02_lop'], 'C03': ['c02_lop'], 'C04': ['c02_lop'], 'C05': ['c02_lop', 'c18_dict'], 'C06': ['c02_lop'], 'C07': ['c07_pursuit'], 'C08': ['c07_pursuit'], 'C09': ['c07_pursuit'], 'C10': ['c10_linear'], 'C11': ['c10_linear'],
    'C16': ['c16_cvx'], 'C17': ['c17_data'], 'C18': ['c18_dict'], 'C19': ['c19_cluster'], 'C20': ['c20_block'], 'C21': ['c21_tools'],
    'C15': ['c15_first_order'],
    'C12': ['c12_opt'], 'C13': ['c12_opt'], 'C14': ['c12_opt'],
}

# contracts whose larger sizes (8 times the last executed ones) are not admissible (sizes tied to each other) or cost too much
NO_LARGE = {
    'C04': {'windowed_op[real]', 'windowed_op[complex]'},
    'C11': {'Lanczos bidiagonalization and SVD'},
    'C13': {'ordered l1 value'},
    'C15': {'bp_scd', 'dantzig_scd', 'options of the problems'},
    'C16': {'l1ls.solve solution', 'l1ls.solve_jit solution'},
    'C18': {'wavelet basis haar', 'wavelet basis db2', 'wavelet basis sym3', 'wavelet basis bior2.2'},
    'C19': {'spectral clustering of a disconnected graph', 'fast spectral clustering of separated groups', 'self-expressive representations by OMP'},
}


def load(prop):
    out, missing = [], []
    for m in MODULES[prop]:
        try:
            mod = importlib.import_module(m)
        except Exception:
            missing.append('%s: %s' % (m, traceback.format_exc()[-500:]))
            continue
        out += mod.CONTRACTS[prop] if isinstance(mod.CONTRACTS, dict) else mod.CONTRACTS
    for c in out:
        c.large = c.name not in NO_LARGE.get(prop, ())
    names = [c.name for c in out]
    assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1][:3]
    return out, missing


def contracts(prop):
    return load(prop)[0]
