"""Generates charts: C++ types for the real library and the same chart as data for the model.
A chart is a function of its number and configuration only."""
import random

M = 63
EXC, ANY = 4, 5
FWD, DIS, DEF, TERM, TRANS, CLEAR = range(6)
K_CUSTOM, K_TRANS, K_INSTATE, K_DEFER, K_TERM = range(5)

# number -> configuration.  trans: 0 none, 1 exception_translator, 2 custom, 3 exception_translator with another event; hist: probability of history; wide: regions
CONF = {
 0: dict(trans=1, hist=0.5, wide=0.5, states=12),
 1: dict(trans=0, hist=0.3, wide=0.6, states=12, stdalloc=1),
 2: dict(trans=3, hist=0.3, wide=0.7, states=14, relax=1, depth=4),
 3: dict(trans=2, hist=0.7, wide=0.4, states=15, depth=5),
 4: dict(trans=1, hist=0.2, wide=0.8, states=13, native=1, maxreg=4),
 5: dict(trans=1, hist=0.9, wide=0.3, states=13, ndebug=1, native=1),
 6: dict(trans=2, hist=0.3, wide=0.5, states=11, relax=1, native=1),
 7: dict(trans=0, hist=0.6, wide=0.5, states=11, relax=1),
 47: dict(trans=1, hist=0.2, wide=0.95, states=13, maxreg=4, term=1), # regions can be terminated one by one, in many orders
}
def conf(cid):
    if cid in CONF: return CONF[cid]
    r = random.Random('conf%d' % cid)
    d = dict(trans=r.choice([0, 1, 1, 1, 2, 2]), hist=r.choice([0.2, 0.5, 0.9]), wide=r.choice([0.2, 0.5, 0.8]), states=r.randint(9, 14),
                relax=1 if cid % 3 == 2 else 0, native=r.choice([0, 1]), ndebug=r.choice([0, 0, 1]), stdalloc=r.choice([0, 0, 1]), depth=r.choice([3, 3, 4, 5]), maxreg=r.choice([3, 3, 4]))
    r = random.Random('more%d' % cid)
    if d['trans'] == 1 and r.random() < 0.4: d['trans'] = 3
    if r.random() < 0.2: d['maxreg'] = 6
    if r.random() < 0.15 or cid in (14, 19, 21): d['depth'] = 7; d['states'] = 15
    return d

class Chart:
    def __init__(self, cid):
        self.id = cid; c = self.c = dict(trans=1, hist=0.5, wide=0.5, states=12, relax=0, native=0, ndebug=0, stdalloc=0, depth=3, maxreg=3); c.update(conf(cid))
        r = self.r = random.Random('chart%d' % cid)
        while True:
            self.par = []; self.reg = []; self.kids = []; self.depth = []; self.hist = []
            self.build()
            n = len(self.par)
            if c['states'] - 2 <= n <= c['states'] + 1 and any(len(k) > 1 for k in self.kids) and max(self.depth) >= c['depth'] - 1 and (c['maxreg'] == 3 or any(len(k) >= c['maxreg'] - 1 and len(k) > 3 for k in self.kids)): break
        self.n = n; self.acts = 0
        self.full = [r.random() < 0.5 for _ in range(n)]
        self.mix = [r.choice([0, 0, 1, 2, 4, 3]) for _ in range(n)]
        self.inits()
        self.clears = [(k, s, g) for s in range(n) for g in range(len(self.kids[s])) for k in (1, 2) if self.hist[s] & k]
        self.reacs = [self.reactions(s) for s in range(n)]
        # states in orthogonal regions can mostly be terminated by something
        r2 = random.Random('term%d' % cid)
        for s in range(n):
            p = self.par[s]
            if p == -1 or len(self.kids[p]) < 2 or ( r2.random() < 0.25 and not c.get('term') ): continue
            cs = [x for x in self.reacs[s] if x['k'] == K_CUSTOM and x['ev'] < EXC]
            if cs and not any(o['k'] == TERM for x in cs for o in x['opts']): r2.choice(cs)['opts'].append(dict(k=TERM))
            elif c.get('term') and not cs: self.reacs[s].insert(0, dict(k=K_TERM, ev=r2.randrange(EXC), t=(0, 0), c=-1, a=0, opts=[]))
        # states that leave to the library what they may: no list of reactions, no exit function
        r3 = random.Random('bare%d' % cid)
        self.noexit = [r3.random() < 0.13 for _ in range(n)]
        for s in range(n):
            if r3.random() < 0.1 and ( self.par[s] == -1 or len(self.kids[self.par[s]]) < 2 ): self.reacs[s] = []

    def add(self, p, g, d):
        self.par.append(p); self.reg.append(g); self.kids.append([]); self.depth.append(d); self.hist.append(0); return len(self.par) - 1
    def build(self):
        r = self.r; c = self.c; left = [c['states']]
        self.roots = []
        def grow(p, g, d, deepInh):
            s = self.add(p, g, d); left[0] -= 1
            if d < c['depth'] and left[0] > 0 and r.random() < (0.95 if d == 0 else 0.6 if d + 2 <= c['depth'] else 0.35):
                h = 0
                if r.random() < c['hist']: h = r.choice([1, 2, 3, 3])
                inh = deepInh or (h & 2)
                multi = r.random() < c['wide'] and not deepInh
                nr = r.choice([2, 2, 3] if c['maxreg'] == 3 else [2, 3, 4] if c['maxreg'] == 4 else [2, 5, 6]) if multi else 1
                self.hist[s] = h
                for g2 in range(nr):
                    self.kids[s].append([])
                    for _ in range(r.choice([1, 2, 2, 3]) if nr == 1 else r.choice([1, 2, 2])):
                        if left[0] <= -3 and self.kids[s][g2]: break
                        k = grow(s, g2, d + 1, inh); self.kids[s][g2].append(k)
            return s
        while left[0] > 0 or len(self.roots) < 2: self.roots.append(grow(-1, 0, 0, False))
    def inits(self):
        r = self.r; self.init = []
        for s in range(self.n):
            l = []
            for g, ks in enumerate(self.kids[s]):
                modes = [0]
                if self.hist[s] & 1: modes += [1, 1]
                if self.hist[s] & 2: modes += [2, 2]
                l.append((r.choice(modes), r.choice(ks)))
            self.init.append(l)
        self.initial = r.choice(self.roots)
    def anc(self, s): # proper ancestors, innermost first, machine last
        l = []; p = self.par[s]
        while p != -1: l.append(p); p = self.par[p]
        return l + [M]
    def common(self, s, t):
        ta = self.anc(t)
        for a in self.anc(s):
            if a in ta: return a
    def below(self, s, a): # ancestor-or-self of s directly below a
        while (self.par[s] if self.par[s] != -1 else M) != a: s = self.par[s]
        return s
    def legal(self, s, t):
        a = self.common(s, t)
        return self.reg[self.below(s, a)] == self.reg[self.below(t, a)]
    def target(self, s):
        r = self.r
        for _ in range(200):
            t = r.randrange(self.n)
            if not self.legal(s, t): continue
            if self.common(s, t) == M and r.random() < 0.35: continue
            h = 0
            p = self.par[t]
            if p != -1 and self.hist[p] and r.random() < 0.6:
                h = r.choice([k for k in (1, 2) if self.hist[p] & k])
            elif any(self.hist[x] for x in range(self.n)) and r.random() < 0.25: continue
            return (h, t)
        return (0, s)
    def actx(self, s, t):
        r = self.r
        if r.random() < 0.4: return -1
        if self.c['relax']:
            return r.choice([s] + self.anc(s))
        a = self.anc(s); return r.choice(a[a.index(self.common(s, t)):])
    def act(self): self.acts += 1; return self.acts
    def mktrans(self, s):
        t = self.target(s); c = self.actx(s, t[1])
        return (t, c, self.act() if c != -1 else 0)
    def custom(self, s, ev):
        r = self.r
        opts = [dict(k=FWD), dict(k=DIS)]
        for _ in range(3 if ev != ANY else 1):
            t, c, a = self.mktrans(s); opts.append(dict(k=TRANS, t=t, c=c, a=a))
        if ev != EXC or r.random() < 0.3: opts.append(dict(k=DEF))
        if r.random() < 0.5: opts.append(dict(k=TERM))
        if self.clears and r.random() < 0.35: opts.append(dict(k=CLEAR, cl=r.choice(self.clears)))
        return dict(k=K_CUSTOM, ev=ev, opts=opts, t=(0, 0), c=-1, a=0)
    def reactions(self, s):
        r = self.r; l = []; used = set()
        evs = [0, 1, 2, 3]; r.shuffle(evs)
        for i, e in enumerate(evs):
            x = r.random()
            if i == 0 or x < 0.25: l.append(self.custom(s, e)); used.add(e)
            elif x < 0.4: t, c, a = self.mktrans(s); l.append(dict(k=K_TRANS, ev=e, t=t, c=c, a=a, opts=[]))
            elif x < 0.5:
                c = r.choice([-1, s] + self.anc(s)); l.append(dict(k=K_INSTATE, ev=e, t=(0, 0), c=c, a=self.act() if c != -1 else 0, opts=[]))
            elif x < 0.58: l.append(dict(k=K_DEFER, ev=e, t=(0, 0), c=-1, a=0, opts=[]))
            elif x < 0.64: l.append(dict(k=K_TERM, ev=e, t=(0, 0), c=-1, a=0, opts=[]))
        if self.c['trans'] and r.random() < 0.7:
            x = r.random()
            if x < 0.65: l.append(self.custom(s, EXC))
            elif x < 0.85: t, c, a = self.mktrans(s); l.append(dict(k=K_TRANS, ev=EXC, t=t, c=c, a=a, opts=[]))
            elif x < 0.93: l.append(dict(k=K_TERM, ev=EXC, t=(0, 0), c=-1, a=0, opts=[]))
            else: c = r.choice([-1, s]); l.append(dict(k=K_INSTATE, ev=EXC, t=(0, 0), c=c, a=self.act() if c != -1 else 0, opts=[]))
        r.shuffle(l)
        if r.random() < 0.22:
            x = r.random()
            if x < 0.4: w = self.custom(s, ANY)
            elif x < 0.6: t, c, a = self.mktrans(s); w = dict(k=K_TRANS, ev=ANY, t=t, c=c, a=a, opts=[])
            elif x < 0.75: c = r.choice([-1, s] + self.anc(s)); w = dict(k=K_INSTATE, ev=ANY, t=(0, 0), c=c, a=self.act() if c != -1 else 0, opts=[])
            elif x < 0.9: w = dict(k=K_DEFER, ev=ANY, t=(0, 0), c=-1, a=0, opts=[])
            else: w = dict(k=K_TERM, ev=ANY, t=(0, 0), c=-1, a=0, opts=[])
            l.insert(r.randrange(len(l) // 2, len(l) + 1), w)
        # a second reaction for an event that has one already: only the first may be executed
        if r.random() < 0.3 and l:
            e = r.choice(l)['ev']
            if e not in (ANY, EXC): t, c, a = self.mktrans(s); l.append(dict(k=K_TRANS, ev=e, t=t, c=c, a=a, opts=[]))
        return l

    # ---- output -----------------------------------------------------------------------------------------------
    def sname(self, s): return 'Mach' if s in (M, -1) else 'S%d' % s
    def tname(self, t): return ['%s', 'sc::shallow_history< %s >', 'sc::deep_history< %s >'][t[0]] % self.sname(t[1])
    def ename(self, e): return 'ExcEv' if e == EXC else 'sc::event_base' if e == ANY else 'Ev< %d >' % e
    def actname(self, c, a, e, fn='act'): return '&%s::%s< %d, %s >' % (self.sname(c), fn, a, self.ename(e))
    def cpp(self):
        c = self.c; o = []; w = o.append
        w('#define CHART_NS chart_%d\n#define CHART_TRANS %d\n#define CHART_STDALLOC %d\n#include "chart.hpp"\nnamespace CHART_NS\n{' % (self.id, c['trans'], c['stdalloc']))
        for s in range(self.n): w('struct S%d;' % s)
        w('struct MixA : Mix {}; struct MixB : Mix {}; struct MixC : Mix {};')
        fns = ('  template< int A, class E > void act( const E & e ) { cbAct( *this, %d, A, e ); }\n'
               '  template< int A, class E > void inact( const E & e ) { cbInAct( *this, %d, A, e ); }\n'
               '  template< class X > void simPost( const X & x ) { this->post_event( x ); }\n')
        w('struct Mach : sc::state_machine< Mach, S%d, SAlloc, Trans >, Body\n{\n  Mach() : Body( %d ) {}\n  ~Mach() {}\n'
          '  void unconsumed_event( const sc::event_base & e ) { cbUnc( *this, e ); }' % (self.initial, M))
        w(fns % (M, M))
        w('  static void simSelf( Mach & ) {}\n  void simContexts() {}\n  void simClear( int i );\n  void simQuery( Snap & s ) const;\n  bool simSameType( int id, rtti_policy_type::id_type t ) const;\n};')
        for s in range(self.n):
            p = self.par[s]; ctx = self.sname(p)
            if p != -1 and (len(self.kids[p]) > 1 or s % 2): ctx += '::orthogonal< %d >' % self.reg[s]
            ini = ', '.join(self.tname(t) for t in self.init[s])
            arg = ''
            if self.kids[s]:
                arg = ', ' + ('mpl::list< %s >' % ini if len(self.kids[s]) > 1 or s % 2 == 0 or self.init[s][0][0] else ini)
                if self.hist[s]: arg += ', sc::' + ['', 'has_shallow_history', 'has_deep_history', 'has_full_history'][self.hist[s]]
            base = 'sc::%s< S%d, %s%s >' % ('state' if self.full[s] else 'simple_state', s, ctx, arg)
            mix = ''.join(', ' + n for b, n in ((1, 'MixA'), (2, 'MixB'), (4, 'MixC')) if self.mix[s] & b)
            w('struct S%d : %s, Body%s\n{\n  typedef void SimTagged; enum { simTag = %d };' % (s, base, mix, s))
            rl = []
            for rx in self.reacs[s]:
                e = self.ename(rx['ev'])
                if rx['k'] == K_CUSTOM: rl.append('sc::custom_reaction< %s >' % e)
                elif rx['k'] == K_TRANS: rl.append('sc::transition< %s, %s%s >' % (e, self.tname(rx['t']), '' if rx['c'] == -1 else ', %s, %s' % (self.sname(rx['c']), self.actname(rx['c'], rx['a'], rx['ev']))))
                elif rx['k'] == K_INSTATE: rl.append('sc::in_state_reaction< %s%s >' % (e, '' if rx['c'] == -1 else ', %s, %s' % (self.sname(rx['c']), self.actname(rx['c'], rx['a'], rx['ev'], 'inact'))))
                elif rx['k'] == K_DEFER: rl.append('sc::deferral< %s >' % e)
                elif rx['k'] == K_TERM: rl.append('sc::termination< %s >' % e)
            rl = ', '.join(rl)
            # actions of this very state are members declared before the reaction list
            w(fns % (s, s))
            if not rl: pass
            elif len(self.reacs[s]) == 1 and s % 2 and ',' not in rl: w('  typedef %s reactions;' % rl)
            else: w('  typedef mpl::list< %s > reactions;' % rl)
            if self.full[s]: w('  S%d( my_context c ) : my_base( c ), Body( %d ) { cbCtor( *this, %d ); }' % (s, s, s))
            else: w('  S%d() : Body( %d ) { cbCtorSimple( %d ); }' % (s, s, s))
            w('  static void simSelf( S%d & s );' % s)
            w('  ~S%d() { cbDtor( *this, %d ); }' % (s, s))
            if not self.noexit[s]: w('  void exit() { cbExit( *this, %d ); }' % s)
            w('  void simContexts() { %s ctxMachine( *this ); }' % ' '.join('ctxOne< %s >( *this, %d );' % (self.sname(a), a) for a in self.anc(s)))
            for rx in self.reacs[s]:
                if rx['k'] == K_CUSTOM: w('  sc::result react( const %s & e );' % self.ename(rx['ev']))
            w('};')
        for s in range(self.n):
            for i, rx in enumerate(self.reacs[s]):
                if rx['k'] != K_CUSTOM: continue
                w('sc::result S%d::react( const %s & e )\n{\n  switch ( cbReact( *this, %d, %d, e, %d ) )\n  {' % (s, self.ename(rx['ev']), s, i, len(rx['opts'])))
                for j, op in enumerate(rx['opts']):
                    if op['k'] == FWD: x = 'return forward_event();'
                    elif op['k'] == DIS: x = 'return discard_event();'
                    elif op['k'] == DEF: x = 'return defer_event();'
                    elif op['k'] == TERM: x = 'return terminate();'
                    elif op['k'] == CLEAR:
                        k, cs, g = op['cl']
                        x = 'logClear( %d ); clear_%s_history< S%d, %d >(); return discard_event();' % (self.clears.index(op['cl']), 'shallow' if k == 1 else 'deep', cs, g)
                    else:
                        x = 'return transit< %s >(%s);' % (self.tname(op['t']), '' if op['c'] == -1 else ' %s, e ' % self.actname(op['c'], op['a'], rx['ev']))
                    if s % 2 and op['k'] != CLEAR: x = '{ sc::result r( %s ); return r; }' % x[7:-1] # through an object of the user
                    w('    %s %s' % ('case %d:' % j if j else 'default:', x))
                w('  }\n}')
        for s in range(self.n): w('void S%d::simSelf( S%d & s ) { machineQuery( s.outermost_context(), s ); }' % (s, s))
        w('void Mach::simClear( int i )\n{\n  switch ( i )\n  {')
        for i, (k, s, g) in enumerate(self.clears): w('    case %d: clear_%s_history< S%d, %d >(); break;' % (i, 'shallow' if k == 1 else 'deep', s, g))
        w('    default: break;\n  }\n}')
        w('void Mach::simQuery( Snap & s ) const\n{')
        for s in range(self.n): w('  queryState< S%d >( *this, s, %d );' % (s, s))
        for i, nm in enumerate(('MixA', 'MixB', 'MixC')): w('  queryMix< %s >( *this, s, %d );' % (nm, i))
        w('}\nbool Mach::simSameType( int id, rtti_policy_type::id_type t ) const\n{\n  switch ( id )\n  {')
        for s in range(self.n): w('    case %d: return t == S%d::static_type();' % (s, s))
        w('    default: return false;\n  }\n}')
        w('void storeIds()\n{\n  if ( !wantIds() ) return;\n#ifndef BOOST_STATECHART_USE_NATIVE_RTTI\n  const unsigned salt = idSalt();')
        for s in range(self.n):
            if s % 3 != 2: w('  S%d::custom_static_type_ptr( nextId( %d, salt ) );' % (s, s))
        for e in range(4): w('  Ev< %d >::custom_static_type_ptr( nextId( MAXS + %d, salt ) );' % (e, e))
        for s in range(self.n): w('  if ( S%d::custom_static_type_ptr< CustomId >() != wantedIds()[ %d ] ) violation( "rtti", "a type does not return the custom identifier stored for it" );' % (s, s))
        for e in range(4): w('  if ( Ev< %d >::custom_static_type_ptr< CustomId >() != wantedIds()[ MAXS + %d ] ) violation( "rtti", "a type does not return the custom identifier stored for it" );' % (e, e))
        w('#endif\n}')
        w('void checkIds()\n{\n  static bool done = false; storeIds(); if ( done || !wantIds() ) return; done = true;\n  TypeIds t;')
        for s in range(self.n): w('  t.add( S%d::static_type() );' % s)
        for e in range(4): w('  t.add( Ev< %d >::static_type() );' % e)
        w('  t.add( ExcEv::static_type() );\n}')
        w('IMachine * create() { checkIds(); return new Handle< Mach >; }')
        def T(t): return '{%d,%d}' % t
        w('static Chart chart = { {')
        w(' %d, %d, %d, %d, %d, %d, {' % (self.id, self.n, self.initial, 1 if c['trans'] == 3 else c['trans'], c['relax'], c['stdalloc']))
        for s in range(self.n):
            rs = []
            for rx in self.reacs[s]:
                os = []
                for op in rx['opts']:
                    cl = op.get('cl', (0, 0, 0))
                    os.append('{%d,%s,%d,%d,%d,%d,%d}' % (op['k'], T(op.get('t', (0, 0))), op.get('c', -1), op.get('a', 0), cl[0], cl[1], cl[2]))
                rs.append('{%d,%d,%s,%d,%d,{%s}}' % (rx['k'], rx['ev'], T(rx['t']), rx['c'], rx['a'], ','.join(os)))
            w('  {%d,%d,%d,{%s},%d,%d,%d,%d,{%s}},' % (self.par[s], self.reg[s], len(self.kids[s]), ','.join(T(t) for t in self.init[s]), self.hist[s], int(self.full[s]), int(self.noexit[s]), self.mix[s], ',\n    '.join(rs)))
        w(' }, {%s}, "%s" }, &create };' % (','.join('{%d,%d,%d}' % x for x in self.clears), ' '.join('%s=%s' % kv for kv in sorted(c.items()))))
        w('static RegisterChart registerChart( &chart );\n}')
        return '\n'.join(o) + '\n'
    def defines(self):
        c = self.c; d = ['-Dstatechart=statechart_c%d' % self.id]
        if c['relax']: d.append('-DBOOST_STATECHART_RELAX_TRANSITION_CONTEXT')
        if c['native']: d.append('-DBOOST_STATECHART_USE_NATIVE_RTTI')
        if c['ndebug']: d += ['-DNDEBUG', '-DBOOST_DISABLE_ASSERTS']
        else: d.append('-DBOOST_ENABLE_ASSERT_HANDLER')
        return d
    def text(self):
        o = ['chart %d: %s; initial S%d' % (self.id, self.c, self.initial)]
        def tn(t): return ['S%d', 'H(S%d)', 'H*(S%d)'][t[0]] % t[1]
        for s in range(self.n):
            o.append('%sS%d%s%s region %d %s%s init [%s]' % ('  ' * self.depth[s], s, '' if self.full[s] else ' (simple)', ' (no exit function)' if self.noexit[s] else '', self.reg[s], ['', 'shallow', 'deep', 'full'][self.hist[s]], '', ', '.join(tn(t) for t in self.init[s])))
            for rx in self.reacs[s]:
                e = {4: 'EXC', 5: 'ANY'}.get(rx['ev'], 'E%d' % rx['ev'])
                x = ['custom', 'transition', 'in_state', 'defer', 'terminate'][rx['k']]
                if rx['k'] == K_TRANS: x += ' ' + tn(rx['t']) + (' act %s#%d' % (self.sname(rx['c']), rx['a']) if rx['c'] != -1 else '')
                if rx['k'] == K_INSTATE and rx['c'] != -1: x += ' in %s#%d' % (self.sname(rx['c']), rx['a'])
                if rx['k'] == K_CUSTOM: x += ' ' + '; '.join(['fwd', 'discard', 'defer', 'terminate', 'transit ' + tn(op.get('t', (0, 0))) + (' act %s#%d' % (self.sname(op['c']), op['a']) if op.get('c', -1) != -1 else ''), 'clear %s' % (op.get('cl'),)][op['k']] for op in rx['opts'])
                o.append('%s  - %s: %s' % ('  ' * self.depth[s], e, x))
        return '\n'.join(o)

if __name__ == '__main__':
    import sys
    c = Chart(int(sys.argv[1]))
    print(c.cpp() if len(sys.argv) > 2 else c.text())
