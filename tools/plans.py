"""What each check explores."""
WIDE = [(n, 'W_' + n) for n in ('CLt', 'CNum', 'CDiff', 'CMove', 'CStr', 'CDet', 'CTri')] + [
    ('NZero', 'W_Zero'), ('NOfInt', 'W_NOfInt'), ('NAdd', 'W_Add'), ('NSub', 'W_Sub'), ('NMul', 'W_Mul'), ('NLt', 'W_Lt'),
    ('NSgn', 'W_Sgn'), ('NAbs', 'W_Abs'), ('NNeg', 'W_Neg'), ('NQuo', 'W_Quo')]

def gen(fams, mode='narrow', spec='Trace_Topo', seed=0):
    return dict(fams=fams, mode=mode, spec=spec, seed=seed)

def both(fams, **kw):
    return [gen(fams, 'narrow', **kw), gen(fams, 'wide', **kw)]

def read(fams, **kw):
    return gen(fams, 'wide', 'Trace_Read', **kw)

ALLC = '{' + ','.join('"C%02d"' % k for k in range(1, 25)) + '}'

def model(name, invs, consts, spec='Trace_Topo', mode=None):
    """A model to check exhaustively, whose behaviours the code then carries out."""
    wide = mode == 'wide' and spec != 'Trace_Read'
    cfg = 'SPECIFICATION Spec\nINVARIANT %s\nCHECK_DEADLOCK FALSE\nCONSTANT\n' % invs
    cfg += ''.join(' %s %s %s\n' % (k, '<-' if isinstance(v, str) and v[:1].isupper() else '=', v) for k, v in consts.items())
    if wide:
        cfg += ''.join(' %s <- %s\n' % w for w in WIDE)
    return dict(model=name, cfg=cfg, spec=spec, mode=mode or 'narrow')

def mc_map(w, h, k, does, depth=1, writings='{"cells"}', slant=0, at='AtN', kinds='{0,1,2,3}', masks='MaskN', thrs='ThrN', wide=False):
    return model('MC_Map', 'Meets Sound Compose', dict(Props=ALLC, W=w, H=h, K=k, At=at, Slant=slant, Writings=writings, Depth=depth,
                 Does=does, MaskKinds=kinds, MaskAt=masks, Thrs=thrs), mode='wide' if wide else None)

def mc_path(lens, wide=False):
    return model('MC_Path', 'Machine Bounded Genuine Twice Complete Backwards',
                 dict(Props='{}', At='AtX' if wide else 'AtN', MaskAt='MaskX' if wide else 'MaskN', Lens=lens), mode='wide' if wide else None)

def mc_vw(lens, kinds='{"open","closed"}', wide=False, at=None):
    return model('MC_VW', 'Ends Rising Steps Tops Weights Laws',
                 dict(Props='{}', At=at or ('AtX' if wide else 'AtN'), Far='FarX' if wide else 'FarN', Thrs='ThrX' if wide else 'ThrN', Lens=lens, Kinds=kinds),
                 mode='wide' if wide else None)

def mc_ring(lens, at='AtN', wide=False):
    return model('MC_Ring', 'SameArea SamePoints Flips Turns', dict(Props='{}', At=at, Lens=lens), mode='wide' if wide else None)

def mc_build(rings, regions, paths='PathsN', loops='LoopsN', wide=False):
    return model('MC_Build', 'Table Meets Stored', dict(Props=ALLC, Paths=paths, Loops=loops, MaxRings=rings, MaxRegions=regions, Roles='{"o","i"}'),
                 mode='wide' if wide else None)

def mc_read(kinds, counts, hurts, side='"both"'):
    return model('MC_Read', 'Whole Caused Counted Final Ends Before Lost Contained Paired', dict(Props='{}', Kinds=kinds, Counts=counts, Hurts=hurts, Side=side),
                 spec='Trace_Read', mode='wide')
def mc_own(depth):
    return model('MC_Own', 'Owned Gone Fresh', dict(Props='{}', Depth=depth, Ins='InsN', Masks='MasksN', Thrs='ThrsN'), spec='Trace_Own')
def own(f):
    return [gen(f, 'narrow', 'Trace_Own'), gen(f, 'wide', 'Trace_Own')]
HURTS = '{"cut","fail","low","high","next"}'

PLANS = {}
def plan(prop, quick, thorough):
    PLANS[prop] = {'quick': quick, 'thorough': quick + thorough}

LEVELS = {}
ASSUME = ["TLC evaluates the specification correctly",
          "the harness records what the library did faithfully (it reads the library's own public data structures)",
          "maps are valid in the sense of Normalize_domain, clips representable in the sense of Clip_domain (spec/Normalize.tla, spec/Clip.tla)"]

CELLS, BOTH = '{"cells"}', '{"cells","outlines"}'
X = dict(at='AtX', masks='MaskX', thrs='ThrX', wide=True)
NORM, CLIP, SIMP, ALL, TWICE, EQUIV = '{"normalize"}', '{"clip"}', '{"simplify"}', '{"normalize","clip","simplify"}', '{"normalize","clip","simplify","twice"}', '{"equiv"}'
# every colouring of a 3 x 3 grid with three regions, and of larger grids with one or two
MAPS = [mc_map(3, 3, 3, EQUIV), mc_map(3, 3, 3, EQUIV, slant=1), mc_map(4, 3, 1, EQUIV), mc_map(4, 4, 1, EQUIV), mc_map(5, 2, 2, EQUIV)]

def seeds(f, n, fams):
    """The generators again, with other seeds."""
    ret = []
    for k in range(1, n + 1):
        r = f(fams)
        for step in (r if isinstance(r, list) else [r]):
            ret.append(dict(step, seed=1000 * k))
    return ret

plan('C01', both('build:1200,free:1200,hist:150,grandb:4') + [mc_build(2, 2), mc_map(2, 2, 2, '{}', writings='{"cells","outlines","reversed","outlines_reversed"}', depth=0)],
     seeds(both, 12, 'build:2000,free:3000,hist:150,grandb:8') + [mc_build(2, 2, 'PathsX', 'LoopsX', wide=True), mc_build(3, 2)])
plan('C02', both('build:700,free:700,norm:300,equiv:100,grandb:3') + [mc_build(2, 2)],
     seeds(both, 12, 'build:1000,free:2000,norm:400,equiv:100') + [mc_build(2, 2, 'PathsX', 'LoopsX', wide=True), mc_build(3, 2)] + MAPS[:2])
plan('C03', both('hist:700,build:300,norm:200,clip:100,simp:200,grands:3') + [mc_map(2, 2, 2, ALL, slant=1)],
     seeds(both, 12, 'hist:1500,build:300,norm:300,clip:150,simp:300') + [mc_build(3, 2), mc_map(2, 2, 2, ALL, 2, BOTH, slant=1), mc_map(2, 2, 2, ALL, 1, **X)])
plan('C04', both('norm:900,hist:200,grandn:4') + [mc_map(3, 2, 3, EQUIV)], seeds(both, 10, 'norm:1500,hist:300,grandn:8') + MAPS + [mc_map(2, 2, 2, EQUIV, **X)])
plan('C05', both('norm:900,hist:200,grandn:4') + [mc_map(3, 2, 3, EQUIV)], seeds(both, 10, 'norm:1500,hist:300,grandn:8') + MAPS + [mc_map(2, 2, 2, EQUIV, **X)])
plan('C06', both('equiv:350,norm:200,grandn:3') + [mc_map(3, 2, 2, EQUIV)], seeds(both, 10, 'equiv:600,norm:200') + MAPS + [mc_map(2, 2, 2, EQUIV, **X)])
plan('C07', both('clippath:2500,clip:150,longclip:8') + [mc_path('{0,1,2,3}'), mc_path('{2}', True)],
     seeds(both, 10, 'clippath:6000,clip:200') + [mc_path('{4}'), mc_path('{3}', True)])
plan('C08', both('clip:350,hist:200,grandc:4') + [mc_map(2, 2, 2, CLIP, 1, BOTH, slant=1)],
     seeds(both, 12, 'clip:600,hist:200,grandc:8') + [mc_map(2, 2, 2, CLIP, 2, BOTH, slant=1), mc_map(3, 2, 2, CLIP, 1, BOTH, slant=1), mc_map(3, 3, 1, CLIP, 1, BOTH, slant=1), mc_map(2, 2, 2, CLIP, 1, **X)])
plan('C09', both('again:500,rect:250,longclip:4') + [mc_map(2, 1, 2, CLIP, 2, BOTH, slant=1)],
     seeds(both, 12, 'again:800,rect:400') + [mc_map(2, 2, 2, CLIP, 2, BOTH, slant=1), mc_map(2, 1, 2, CLIP, 2, **X)])
plan('C10', both('simp:1500,hist:250,longsimp:4,grands:3') + [mc_vw('{3}'), mc_map(2, 2, 2, ALL, slant=1)],
     seeds(both, 12, 'simp:2500,hist:300,grands:6') + [mc_vw('{4}'), mc_map(2, 2, 2, ALL, 2, BOTH, slant=1)])
plan('C11', both('simp:1500,longsimp:6') + [gen('hugesimp:3', 'wide'), mc_vw('{3}'), mc_vw('{4}', '{"closed"}'), mc_vw('{3}', wide=True)],
     seeds(both, 12, 'simp:2500,longsimp:10') + seeds(lambda f: gen(f, 'wide'), 4, 'hugesimp:6') + [mc_vw('{4}'), mc_vw('{4,5}', wide=True), mc_vw('{4}', '{"closed"}', wide=True, at='AtY'), mc_vw('{5}', '{"closed"}'), mc_vw('{5}', '{"open"}')])
plan('C12', both('ring:2000') + [mc_ring('{3}'), mc_ring('{3}', 'AtX', True)], seeds(both, 12, 'ring:4000') + [mc_ring('{4}'), mc_ring('{4}', 'AtX', True), mc_ring('{5}', 'AtY', True)])
plan('C21', both('twice:1200,grandt:4') + [mc_map(2, 2, 2, TWICE, slant=1)], seeds(both, 12, 'twice:3000,grandt:6') + [mc_map(2, 2, 2, TWICE, 2, BOTH, slant=1), mc_map(2, 2, 2, TWICE, 1, **X)])
plan('C24', own('own:1500') + [mc_own(3)], seeds(own, 12, 'own:3000') + [mc_own(4)])
plan('C18', both('ring:1500,build:500') + [mc_ring('{3}'), mc_ring('{3}', 'AtX', True)], seeds(both, 12, 'ring:3000,build:500') + [mc_ring('{4}'), mc_ring('{5}', 'AtY', True)])
plan('C19', both('show:2000') + [read('rshow:500')], seeds(both, 6, 'show:4000') + seeds(read, 8, 'rshow:1000'))

NONE = '{"none"}'
plan('C13', [read('rshp:1500,rbig:16,rlshp:8'), read('rhshp:1'), read('rpshp:1'), mc_read('{"shp"}', '{0,1,2,3}', NONE)], seeds(read, 16, 'rshp:3000,rbig:24,rlshp:10') + seeds(read, 2, 'rhshp:2'))
plan('C14', [read('rdbf:1800,rldbf:10'), read('rhdbf:1'), mc_read('{"dbf"}', '{0,1,2,3}', NONE)], seeds(read, 16, 'rdbf:4000,rldbf:16'))
plan('C15', [read('rjoin:1200,ropen:600,rljoin:6'), mc_read('{"join"}', '{0,1,2,3}', NONE), mc_read('{"join"}', '{1,2}', '{"cut"}')],
     seeds(read, 16, 'rjoin:2500,ropen:600,rljoin:10') + [mc_read('{"join"}', '{0,1,2,3}', HURTS)])
plan('C16', [read('rbad:1500,rjunk:500,rcut:20,rflip:40,rjoin:300'), mc_read('{"shp","dbf"}', '{2}', HURTS)],
     seeds(read, 16, 'rbad:4000,rjunk:1000,rcut:30,rflip:60,rjoin:600') + [mc_read('{"shp","dbf"}', '{0,1,2,3}', HURTS), mc_read('{"join"}', '{1,2,3}', HURTS)])
plan('C20', [read('rbad:1000,rjunk:300,rcut:12,rflip:20,rjoin:600,ropen:500,rgeo:100'), mc_read('{"shp","dbf"}', '{2}', HURTS), mc_read('{"join"}', '{1,2}', '{"cut","fail"}')],
     seeds(read, 12, 'rbad:3000,rjunk:1000,rcut:30,rflip:60,rjoin:2000,ropen:800') + [mc_read('{"shp","dbf"}', '{0,1,2,3}', HURTS), mc_read('{"join"}', '{1,2,3}', HURTS)])
plan('C22', [read('rshp:600,rbig:8,rdbf:600,rbad:900,rjunk:200,rcut:10,rflip:16'), read('rhshp:1'), mc_read('{"shp","dbf"}', '{0,2,3}', '{"none","cut","fail","high"}')],
     seeds(read, 10, 'rshp:2000,rbig:16,rdbf:2000,rbad:3000,rjunk:1000,rcut:30,rflip:60,rlshp:6,rldbf:6') + [mc_read('{"shp","dbf"}', '{0,1,2,3}', HURTS), read('rhdbf:1')])
plan('C23', [read('rshp:600,rbig:8,rdbf:600,rjoin:500,rgeo:150,rbad:500,rcut:8,rflip:12'), mc_read('{"shp","dbf"}', '{0,2,3}', '{"none","cut","high"}'), mc_read('{"join"}', '{1,2,3}', '{"cut"}')],
     seeds(read, 10, 'rshp:2000,rbig:16,rdbf:2000,rjoin:1500,rgeo:300,rbad:3000,rcut:30,rflip:60,rlshp:6,rldbf:6') + [mc_read('{"shp","dbf"}', '{0,1,2,3}', HURTS), read('rhshp:1'), read('rhdbf:1')])
plan('C17', [read('rgeo:1200')], seeds(read, 16, 'rgeo:1500'))
