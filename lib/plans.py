"""What each check runs.  The specification decides; these tables only choose how much of it is exercised."""

PROFILES = ['doc', 'copy', 'copy2', 'move', 'fail', 'read', 'seq', 'obj', 'long', 'iso', 'build']
# every replay suite, in groups that are run as separate engine invocations
GROUPS = [['textr', 'textw'], ['textx', 'textp'], ['strw', 'unesc', 'esc'], ['numw', 'numv'], ['wide', 'key', 'mem'],
          ['iso', 'buf'], ['doc:%s' % p for p in PROFILES]]

LTS = {  # name: nh, na, keys, lexemes, nodes, fan
    'one': (2, 1, ['k'], ['x'], 3, 1),
    'two': (2, 2, ['k'], ['x'], 2, 1),
    'keys': (2, 1, ['k', 'l'], ['x', 'y'], 3, 2),
    'three': (3, 1, ['k'], ['x'], 3, 1),
}
TEXT = ['MCJsonText:MCJsonText_Lit.cfg', 'MCJsonText:MCJsonText_Num.cfg', 'MCJsonText:MCJsonText_Str.cfg',
        'MCJsonText:MCJsonText_Struct.cfg']
STR = ['MCZStr', 'MCJsonText:MCJsonText_Str.cfg']
NUM = ['MCZNum', 'MCJsonText:MCJsonText_Num.cfg']


def doc(*ps, n=60000):
    return ['doc:%s*%d' % (p, n) for p in ps]


# models: TLC model checks; prim: suites run first and deepest; lts: exported transition systems replayed
PLANS = {
    'C01': dict(models=TEXT, prim=[['textw'], ['textr', 'textp'], ['textx']], lts=[]),
    'C02': dict(models=TEXT, prim=[['textr', 'textp'], ['textw', 'wide']], lts=[]),
    'C03': dict(models=['MCJsonText:MCJsonText_Str.cfg'], prim=[doc('fail', 'doc', n=40000), ['strw', 'numw', 'textr']], lts=['one']),
    'C04': dict(models=[], prim=[doc('doc', 'seq', 'obj', 'long', 'move', 'copy', n=30000), ['wide']], lts=['keys']),
    'C05': dict(models=[], prim=[['key', 'wide'], doc('obj')], lts=['keys']),
    'C06': dict(models=[], prim=[doc('copy', 'copy2', 'iso', n=40000), ['wide']], lts=['one', 'two']),
    'C07': dict(models=[], prim=[doc('move', 'seq', n=50000), ['wide']], lts=['one', 'two']),
    'C08': dict(models=STR, prim=[['strw']], lts=[]),
    'C09': dict(models=STR, prim=[['esc']], lts=[]),
    'C10': dict(models=STR, prim=[['unesc'], ['esc', 'strw']], lts=[]),
    'C11': dict(models=NUM, prim=[['numw']], lts=[]),
    'C12': dict(models=NUM, prim=[['numv'], ['numw']], lts=[]),
    'C13': dict(models=[], prim=[doc('read', 'doc', n=50000), ['wide', 'key']], lts=['one']),
    'C14': dict(models=['MCZStr', 'MCZNum'], prim=[doc('build', 'doc', n=40000), ['esc', 'numv', 'strw']], lts=['one']),
    'C15': dict(models=[], prim=[['mem', 'buf', 'iso'], doc('doc', 'long', 'copy', n=20000)], lts=['two'],
                configs=['tiny', 'small3']),
    'C16': dict(models=[], prim=[['iso'], doc('iso', 'copy2', n=50000)], lts=['two'], threads=True),
    'C20': dict(models=[], prim=[['buf'], doc('doc', 'build', n=30000)], lts=['one']),
    'C22': dict(models=TEXT[3:], prim=[['textp', 'wide']], lts=[], deep=True),
}
# calls whose recorded behaviour a property is about (for recordings that TLC refuses)
CALLS = {
    'Text': ['C01', 'C02', 'C03', 'C14'], 'SetNum': ['C11', 'C03', 'C14'], 'SetStr': ['C08', 'C03', 'C14'],
    'SetKey': ['C08', 'C03', 'C14'], 'SetStrEscape': ['C09', 'C14'], 'SetKeyEscape': ['C09', 'C14'],
    'SetInt': ['C12', 'C14'], 'SetDouble': ['C12', 'C14'], 'SetNull': ['C04', 'C14'], 'SetBool': ['C04', 'C14'],
    'SetArray': ['C04'], 'SetObj': ['C04'], 'Copy': ['C06'], 'Move': ['C07', 'C04'], 'Set': ['C06', 'C04'],
    'SetFast': ['C07', 'C04'], 'ArrayAdd': ['C06', 'C04'], 'ArrayAddFast': ['C07', 'C04'], 'ObjAdd': ['C06', 'C04'],
    'ObjAddFast': ['C07', 'C04'], 'ArrayDel': ['C04'], 'ObjDel': ['C04', 'C05'], 'ArrayGet': ['C13', 'C04'],
    'ObjGet': ['C05', 'C13'], 'Begin': ['C13', 'C04'], 'Next': ['C13', 'C04'], 'Release': ['C15', 'C16'],
    'NewAllocator': ['C15', 'C16'], 'NewValue': ['C13'], 'NewFrom': ['C13'], 'Drop': ['C13'],
}
ASSUME = [
    'calls are made inside the documented contract: no null handles, no use of values whose allocator was released or whose '
    'content was overwritten, no Fast transfer of a value into itself or its own descendant',
    'malloc succeeds and documents fit in the configured size type',
]
