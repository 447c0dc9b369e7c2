"""What each check builds and runs."""
# library modules and what they need at link time
DEPS = {
    'types': ['ublas'],
    'netcdf': ['types', 'ocean'],
    'ocean': ['types', 'netcdf'],
    'threads': [],
    'managed': ['threads'],
    'beampatterns': ['types'],
    'transmit': ['types'],
    'eigenrays': ['ocean'],
    'eigenverbs': ['ocean', 'threads'],
    'waveq3d': ['ocean', 'eigenrays', 'eigenverbs'],
    'platforms': ['types', 'managed', 'threads'],
    'sensors': ['waveq3d', 'wavegen', 'biverbs', 'rvbts', 'platforms', 'beampatterns', 'transmit'],
    'wavegen': ['sensors'],
    'biverbs': ['sensors'],
    'rvbts': ['sensors'],
}
ASAN = {'san': 'asan', 'shards': 8, 'scale': 1.0, 'thorough': 20.0}
TSAN = {'san': 'tsan', 'shards': 4, 'scale': 1.0, 'thorough': 20.0}
CHECKS = {}
PROPS = []
NOT_APPLICABLE = {}


def check(id, modules, builds=None, **kw):
    CHECKS[id] = dict(harness=id.lower() + '.cc', modules=modules, builds=builds or [ASAN], **kw)


check('S01', ['types'], builds=[dict(ASAN, scale=25)])
check('W01', ['types'], builds=[dict(ASAN, scale=25)])
check('W02', ['types'], builds=[dict(ASAN, scale=25)])
check('U01', ['ublas'], parts=10, builds=[dict(ASAN, scale=25)])
check('G01', ['types'], builds=[dict(ASAN, scale=25)])
check('G02', ['types'], builds=[dict(ASAN, scale=25)])
check('A01', ['beampatterns'], builds=[dict(ASAN, scale=2)])
check('A02', ['transmit'], builds=[dict(ASAN, scale=25)])
check('E01', ['eigenrays'], builds=[dict(ASAN, scale=25)])
check('R01', ['ocean'], builds=[dict(ASAN, scale=12)])
check('B01', ['ocean'], builds=[dict(ASAN, scale=15)])
check('P01', ['ocean'], builds=[dict(ASAN, scale=15)])
check('T01', ['threads'], builds=[dict(ASAN, shards=4, scale=4), dict(TSAN, shards=4, scale=4)])
check('M01', ['managed'], builds=[dict(ASAN, shards=4, scale=3), dict(TSAN, shards=4, scale=3)])
check('O01', ['ocean'], builds=[dict(ASAN, shards=4, scale=4), dict(TSAN, shards=4, scale=4)])
check('E03', ['biverbs'], builds=[dict(ASAN, shards=6, scale=8), dict(TSAN, shards=2, scale=4)])
check('E02', ['waveq3d'], builds=[dict(ASAN, shards=6, scale=3), dict(TSAN, shards=2, scale=3)])
check('Q01', ['waveq3d'], builds=[dict(ASAN, scale=4)])
check('Q02', ['waveq3d'], builds=[dict(ASAN, scale=5)])
check('Q03', ['waveq3d'], builds=[dict(ASAN, san='plain', shards=6, limit=170), dict(ASAN, scale=0.04, shards=2, limit=170)])
check('Q04', ['waveq3d'], builds=[dict(ASAN, san='plain', shards=6, limit=170), dict(ASAN, scale=0.04, shards=2, limit=170)])
check('N02', ['waveq3d', 'biverbs'], builds=[dict(ASAN, scale=3)])
check('N01', ['netcdf', 'ocean'], builds=[dict(ASAN, scale=8)])
check('L01', ['platforms'], builds=[dict(ASAN, shards=4, scale=2.0), dict(TSAN, shards=4)])
check('L02', ['sensors'], builds=[dict(ASAN, shards=4, scale=12.0), dict(TSAN, shards=4, scale=5)])
check('L03', ['sensors'], builds=[dict(ASAN, shards=4), dict(TSAN, shards=4)])
check('V01', ['sensors'], builds=[dict(ASAN, scale=12)])
