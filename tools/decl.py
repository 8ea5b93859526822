"""More sample declarations and scenes, drawn from a fixed seed: the tables that mkclasses.py turns into
classes/src/more.rs (the declarations, and what the bounded run expects of them) and into contracts."""
import random
R = random.Random(2026)
TYPES = ['u8', 'u16', 'u32', 'u64', 'i8', 'i32', 'i64', 'bool', 'String', 'Vec<u8>', 'Option<i8>']
BOUND = dict(u8=(0, 255), u16=(0, 65535), u32=(0, 2**32-1), u64=(0, 2**63-1), i8=(-127, 127), i32=(-2**31+1, 2**31-1), i64=(-2**62, 2**62))
NAMES = ['_low', '__deep', 'a', 'b', 'aa', 'ab', 'ba', 'base_', 'bases', 'on_x', 'on_name', 'x1', 'x10', 'x_1', 'x', 'y', 'name', 'rid', 'parent', 'tree', 'node', 'scene', 'map', 'owned_state', 'depth', 'children', 'class', 'owner', 'export', 'unique', 'default',
         'signal', 'hk', 'declare', 'init', '_init', 'new', 'this', 'ty', 'this_name_is_longer_than_any_other_name_in_this_file', 'value', 'wrap', 'args', 'tp_', 'UPPER', 'camelCase', 'a_', 'state', 'field', 'data', 'void', 'take', 'status', 'mode', 'process_mode', 'is_ghost', 'root', 'r_type', 'kind', 'index', 'count_of', 'tag_1', 'tag_2', 'tag_11']
CLASS_NAMES = ['CameraNode', 'SubTree', 'PlayerNode', 'Node3D', 'SCREAM', 'X', 'Under_Score', '_Low', 'AVeryLongClassNameThatGoesOnAndOnForever', 'Base', 'Scene', 'Nodes', 'TreeTop', 'Signals', 'Field1', 'Kindly']
def lit(t):
    if t in BOUND:
        lo, hi = BOUND[t]; v = R.choice([0 if lo == 0 else -1, 1, hi, lo, R.randint(lo, hi), R.randint(0, 9)])
        return f'{v}'
    return R.choice(['true', 'false'])
def classes():
    out = {}
    for i, C in enumerate(CLASS_NAMES):
        names = R.sample(NAMES, R.choice([1, 2, 5, 8, 12, 20, 24]) if i > 1 else 8); fields, params = [], []
        for n in names:
            k = R.choice('sfffeexxdduu'); t = R.choice(TYPES)
            if k == 's': fields.append((k, n, R.choice(['()', 'u8', 'String', '(u8, bool)', '(u8, u8, u8, u8, u8)', 'Vec<u8>']), None)); continue
            if k in 'xd': fields.append((k, n, t, None)); continue
            if t in BOUND or t == 'bool':
                if R.random() < 0.5: fields.append((k, n, t, lit(t))); continue
            params.append((n, t)); fields.append((k, n, t, n))
        R.shuffle(params)
        fields.sort(key=lambda f: f[0] != 's')   # the struct has the signals first
        pub = [R.random() < 0.7 for _ in fields]
        out[C] = dict(params=[n for n, _ in params], ptypes=params, fields=fields, pub=pub, more=True, mode=R.choice([None, 'Inherit', 'Always', 'Pausable', 'Inverse']), private=i % 4 == 3, hooks=[h for h in ('loaded', 'ready', 'process', 'terminal') if R.random() < 0.4])
    return out
NODE_NAMES = [' pad ', '', 'a/b', 'tab\\t', 'x1', '007', '..', 'Bare', 'node', 'a', 'A name with spaces', '_', '/', '9', 'q\\"q', 'name', 'Node2', 'näme ∂x', 'a name of forty characters and a few more x']
def value(t):
    """A value of type t, in the variables p: u8 and s: &str of a scene."""
    if t == 'u8' and R.random() < 0.5: return R.choice(['p', 'if p > 3 { 1 } else { 2 }', 'if p == 7 { p } else { 0 }'])
    if t in BOUND: return lit(t)
    if t == 'bool': return R.choice(['true', 'false', 'p > 100', '!(p == 3)'])
    return None
def given(t):
    v = value(t)
    return v if v is not None else {'String': 's.to_string()', 'Vec<u8>': 'Vec::new()', 'Option<i8>': 'o'}[t]
def tree(cls, depth, links=True):
    if links and R.random() < 0.15: return 'link'
    C = R.choice(list(cls)); c = cls[C]
    args = [given(t) for _, t in c['ptypes']]
    sets = []
    for (k, n, t, _), pub in zip(c['fields'], c['pub']):
        if k != 's' and pub and R.random() < 0.35: sets.append((n, given(t)))
    R.shuffle(sets)
    if sets and R.random() < 0.2:
        n, _ = sets[0]; t = next(f[2] for f in c['fields'] if f[1] == n); sets.append((n, given(t)))
    kids = [tree(cls, depth - 1) for _ in range(R.choice([0, 1, 2, 3, 5] if depth > 2 else [0, 0, 1, 2]))] if depth else []
    return dict(C=C, args=args, sets=sets, kids=kids, name=R.choice([None] + NODE_NAMES) if R.random() < 0.7 else None)
def scenes(cls):
    out = {}
    for i in range(8): 
        out[f's{i}'] = tree(cls, [1, 2, 3, 3, 4, 2, 3, 2][i], False)
    # A deep chain and a wide row.
    t = tree(cls, 0, False)
    for i in range(12): t = dict(tree(cls, 0, False), kids=[t])
    out['chain'] = t
    out['wide'] = dict(tree(cls, 0, False), kids=[tree(cls, 0) for _ in range(40)])
    return out
CLS = classes()
SCENES = scenes(CLS)
