"""Write MANIFEST.json: every property that has a check module is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
T = {  # deciding method, what it assumes
    'C01': ('model-based stateful generation (nested dict model)', ''),
    'C02': ('model-based stateful generation (dict-of-arrays model, aliasing probes)', ''),
    'C03': ('generated inputs against reference models and laws', ''),
    'C04': ('generated inputs against reference formulae', ''),
    'C05': ('metamorphic and invariant checks over generated positions', ''),
    'C06': ('differential against linear-scan reference over generated grids', ''),
    'C07': ('round-trip of generated representations and configured objects', ''),
    'C08': ('model-based stateful generation of cache histories', ''),
    'C09': ('differential against NumPy over generated arrays', ''),
    'H01': ('round-trip of generated hierarchies, cross-read with h5py', ''),
    'H02': ('model-based stateful generation of file histories with conflicts and reopening', ''),
    'H03': ('round-trip of generated attributes, datasets and links', ''),
    'H04': ('round-trip of generated storable objects and text tables', ''),
    'B01': ('generated record files with injected marker corruption against a reference encoder', ''),
    'B02': ('generated documents against a reference resolver', ''),
    'B03': ('round-trip of generated nested tables and reading of the written sheets', 'The spreadsheet engine is a stand-in, as none is installed.'),
    'F01': ('differential against brute-force deposit, metamorphic relations, deposit histories', ''),
    'F02': ('metamorphic relations and differential against complex FFT', ''),
    'F03': ('differential against complex FFT and metamorphic relations', ''),
    'F04': ('differential against brute force over generated fields', ''),
    'F05': ('differential against brute-force minimum-image search', ''),
    'G01': ('generated products and vectors against group laws and matrices', ''),
    'N01': ('differential against linear scan and exact rational interpolation', ''),
    'S01': ('differential against direct sums, accumulation histories', ''),
    'S02': ('differential against loop-based statistics, metamorphic relations', ''),
    'S03': ('differential against brute-force regression, metamorphic relations', ''),
    'S04': ('differential against brute-force estimators, numerical normalisation', ''),
    'S05': ('stateful seed-replay histories and resampling invariants', ''),
    'S06': ('round-trip and invariant checks over generated samples', ''),
    'A01': ('differential against quadrature of the Friedmann equation, round-trips', ''),
    'A02': ('round-trips and differential against defining relations', ''),
    'A03': ('differential against re-implemented fitting formulae and quadrature', ''),
    'A04': ('dimensional-analysis laws over generated base units', ''),
    'A05': ('differential against direct counts', ''),
    'A06': ('model-based stateful generation (ordered list model)', ''),
    'P01': ('generated option sets and layouts against reference merge', ''),
    'P02': ('generated data read back from drawn artists', ''),
    'P03': ('differential against brute-force maps', ''),
}
checks, na = [], []
for d in props:
    i = d['id']
    if os.path.exists(f'{V}/checks/{i.lower()}.py'):
        tech, note = T[i]
        checks.append(dict(
            property=i, quick_cmd=f'bash run.sh {i}', thorough_cmd=f'bash run.sh {i} --tier thorough',
            technique='property-based testing: ' + tech, level='exploration',
            level_note=('Searches generated cases (seeded, shrunk to a replay) with an explicit oracle; shows no violation in the explored cases, not absence. '
                        'Trusts NumPy/SciPy/h5py/astropy/matplotlib as installed.' + (' ' + note if note else ''))))
    else:
        na.append(dict(property=i, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na),
          open(f'{V}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
