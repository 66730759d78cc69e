"""The two simulators: how they are built from the tree under test and what their findings mean."""
import gen
import os, subprocess
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = os.path.join(HERE, 'sim')

def includes(repo):
    inc = ['-I' + os.path.join(repo, 'include')]
    for d in ('/opt/vp/boost-root/guard', '/opt/vp/boost-root'):
        if os.path.isdir(d): inc.append('-I' + d)
    return inc

def compile_all(jobs, n):
    """jobs: list of (name, argv, required). Returns the list of names that failed."""
    def one(j):
        try:
            p = subprocess.run(j[1], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, errors='replace', timeout=600)
            return j[0], p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            return j[0], 1, 'compiler timed out'
    with ThreadPoolExecutor(n) as ex: return list(ex.map(one, jobs))

GENERIC = {'data-race', 'use-after-free', 'out-of-bounds', 'double-free', 'wrong-size-free', 'leak', 'crash', 'corrupt-item', 'corrupt-event',
           'lock-misuse', 'deadlock', 'lock-leak', 'no-progress', 'hang', 'assert', 'stray-exception'}

class Async:
    def build(self, repo, bdir, jobs, prop, tier, seed):
        inc = includes(repo)
        harness = ['g++', '-O2', '-g', '-std=c++17', '-fno-pie', '-w', '-c']
        sut = ['g++', '-O1', '-g1', '-w', '-std=c++17', '-fno-pie', '-fsanitize=thread', '-DBOOST_ENABLE_ASSERT_HANDLER'] + inc + ['-c']
        todo = []
        for n in ('work0', 'work1', 'work2', 'work3', 'workm'): todo.append((n, sut + (['-fno-gnu-unique'] if n == 'work3' else []) + [os.path.join(SIM, n + '.cpp'), '-o', os.path.join(bdir, n + '.o')]))
        for n in ('rt', 'asim'): todo.append((n, harness + [os.path.join(SIM, n + '.cpp'), '-o', os.path.join(bdir, n + '.o')]))
        single = True
        for name, rc, out in compile_all(todo, jobs):
            # a tree that can no longer be built without threads is judged by the multi-threaded build alone
            if rc and name == 'work3': single = False; print('NOTE: the single-threaded build does not compile and is left out'); continue
            if rc: raise RuntimeError('%s does not compile against the tree under test:\n%s' % (name, out[-3000:]))
        if not single: todo = [t for t in todo if t[0] != 'work3']
        binary = os.path.join(bdir, 'asim')
        # work3 is compiled without threads: its inline functions must not stand in for those of the others
        w3 = os.path.join(bdir, 'work3.o')
        for cmd in () if not single else (['ld', '-r', '--force-group-allocation', w3, '-o', w3 + '.r'], ['objcopy', '--keep-global-symbol=simSingle3', '--keep-global-symbol=simSingle4', w3 + '.r', w3]):
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            if p.returncode: raise RuntimeError('isolating the single-threaded build failed: ' + p.stdout[-2000:])
        for more in ([], ['-lboost_chrono']): # a changed tree may use more of Boost
            p = subprocess.run(['g++', '-no-pie', '-o', binary] + [os.path.join(bdir, t[0] + '.o') for t in todo] + ['-lboost_thread'] + more + ['-lpthread'],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            if p.returncode == 0: break
        if p.returncode: raise RuntimeError('link failed: ' + p.stdout[-2000:])
        return binary, {}
    def budget(self, prop, tier): return 45 if tier != 'thorough' else 660
    def properties_of(self, f):
        c = f['cls']; r = set()
        if c in GENERIC: return set(['C01', 'C02', 'C03', 'C04', 'C05', 'C06']) - ({'C01', 'C02'} if c == 'leak' else set())
        base, _, what = c.partition('-')
        if base in ('order', 'lost', 'dup', 'early', 'thread', 'left', 'misdelivered') and what in ('item', 'event', 'request', 'amevent', 'amrequest', 'terminate'):
            if what != 'terminate': r |= {'C01'}
            if what in ('event', 'request', 'amevent', 'amrequest'): r |= {'C04'}
            if what in ('amevent', 'amrequest'): r |= {'C06'}
            if base == 'left': r |= {'C02'}
        elif c in ('count', 'blocking-returned', 'nonblocking-waits', 'terminate-flag', 'terminate-ignored', 'terminate-turn', 'ran-after-termination'):
            r |= {'C02'}
            if c in ('terminate-turn', 'blocking-returned'): r |= {'C01'}
        elif c == 'lost-wakeup': r |= {'C01', 'C02', 'C06'}
        elif c == 'lifecycle': r |= {'C04'}
        elif c in ('swallowed', 'fault-executed', 'item-taken'): r |= {'C05'}
        elif c in ('run-to-completion', 'machine'): r |= {'C06'}
        elif c == 'interference': r |= {'C03'}
        elif c == 'harness': raise RuntimeError('harness error: ' + f['text'])
        if f.get('faulty') and c not in ('interference',): r |= {'C05'}
        return r
    def strict(self, f): return self.properties_of(f)
    def rule(self, prop):
        return ('One evaluation is one simulated execution: a program (schedulers, clients, work items, processors, events, faults) and a schedule, both drawn from the seed. '
                'Distinct: the hash over the complete history (every logged operation and observation in order) and every context switch differs. '
                'Non-trivial: at least one preemption inside library code, spurious wake-up or injected fault.')
    def coverage(self, prop, t, notes):
        return dict(
            fault_kinds_injected={'preemption at a lock, wait, notify, atomic or allocation': t.get('preemptions', 0), 'preemption at an ordinary memory access': t.get('memory_preemptions', 0),
                                  'spurious wake-up': t.get('spurious_wakeups', 0), 'failing allocation': t.get('allocation_failures', 0), 'failing mutex/condition initialisation': t.get('init_failures', 0),
                                  'exception thrown by a work item, processor or state': t.get('throwing_items', 0)},
            memory_blocks_handed_out_again=t.get('memory_blocks_reused', 0),
            simulated_time={'scheduling points': t.get('sync_points', 0), 'note': 'the code under test uses no clock or timer, so logical time is counted in scheduling points'},
            states_measure={'distinct schedules': t.get('distinct_schedules', 0), 'distinct histories': t.get('distinct_histories', 0)},
            real_components=['all of include/boost/statechart (schedulers, workers, processor container, event processors, machines, events)', 'Boost.Thread condition_variable_any, Boost.Function, Boost.Bind, smart pointers, std containers'],
            stub_components=['pthread mutex and condition variable, sched_yield, thread creation (fibers), operator new/delete, thread-safe static initialisation: replaced by the simulator'])
    def assumptions(self, prop):
        return ['sequentially consistent execution with vector-clock race detection: weak-memory effects show up as data races, not as executions',
                'code that the compiler did not instrument (libstdc++ binary parts except list linking, libboost_thread) is taken at its documented behaviour']

class Sync:
    CHARTS = {'C09': [0, 1, 2, 3, 4, 19, 47], 'C13': [0, 1, 2, 3, 4, 5, 47], 'C15': [0, 1, 2, 3, 4, 5, 47], 'C10': [0, 1, 2, 3, 4, 5, 19], 'C20': [0, 1, 3, 4, 5, 6], 'C07': [0, 1, 2, 3, 4, 7], 'C08': [0, 2, 3, 4, 5, 6], 'C12': [0, 3, 5, 7, 13, 21], 'C18': [2, 6, 7, 8, 11, 14]}
    def charts(self, prop, tier, seed):
        base = list(self.CHARTS.get(prop, [0, 1, 2, 3, 4, 5]))
        import random
        r = random.Random('%s %d' % (prop, seed)); extra = 1 if tier == 'quick' else 26
        n = 0
        while n < extra:
            c = r.randrange(8, 2000)
            if prop == 'C18': c = c // 3 * 3 + 2
            if prop == 'C08' and gen.Chart(c).c['trans'] == 0: continue
            if c not in base: base.append(c); n += 1
        return base
    def build(self, repo, bdir, jobs, prop, tier, seed, only=None):
        ids = only or self.charts(prop, tier, seed)
        inc = includes(repo) + ['-I' + SIM, '-std=c++17', '-w']
        cmds = [('sim', ['g++', '-O2', '-g1'] + inc + ['-c', os.path.join(SIM, 'ssim.cpp'), '-o', os.path.join(bdir, 'ssim.o')])]
        for i in ids:
            c = gen.Chart(i); src = os.path.join(bdir, 'c%d.cpp' % i)
            with open(src, 'w') as fo: fo.write(c.cpp())
            cmds.append((i, ['g++', '-O1', '-g1', '-fsanitize=address'] + inc + c.defines() + ['-c', src, '-o', os.path.join(bdir, 'c%d.o' % i)]))
        res = compile_all(cmds, jobs)
        good = []; bad = []
        for i, rc, text in res:
            if i == 'sim':
                if rc: raise RuntimeError('the simulator does not compile:\n' + text[:3000])
            elif rc == 0: good.append(i)
            else: bad.append((i, text[:1500]))
        if not good: raise RuntimeError('no chart compiles against this tree; chart %d:\n%s' % bad[0])
        for i, out in bad: print('note: chart %d does not compile against this tree and is left out: %s' % (i, ' '.join(out.split())[:300]))
        out = os.path.join(bdir, 'ssim')
        _, rc, text = compile_all([('link', ['g++', '-fsanitize=address'] + [os.path.join(bdir, 'c%d.o' % i) for i in good] + [os.path.join(bdir, 'ssim.o'), '-o', out])], 1)[0]
        if rc: raise RuntimeError('link failed:\n' + text[:3000])
        return out, dict(charts={str(i): ' '.join('%s=%s' % kv for kv in sorted(gen.Chart(i).c.items())) for i in good}, left_out=[i for i, _ in bad])
    def budget(self, prop, tier): return 40 if tier == 'quick' else 600
    def strict(self, f):
        """the properties broken whatever happened in earlier operations"""
        c, _, fl = f['cls'].partition('+')
        return self.properties_of(dict(f, cls=c + '+' + ''.join(x for x in fl if x not in 'uvwn')))
    def properties_of(self, f):
        c, _, fl = f['cls'].partition('+'); areas = c.split(','); r = set()
        for a in areas:
            if a == 'conf':
                r |= {'C09'}
                if 'x' in fl: r |= {'C07'}
                if 't' in fl: r |= {'C08'}
                if 'h' in fl or 'k' in fl: r |= {'C12'}
                if 'm' in fl: r |= {'C13'}
                if 'r' in fl: r |= {'C18'}
            elif a in ('react', 'unc', 'order', 'event'):
                r |= {'C10', 'C11', 'C17'} if a == 'event' else {'C10', 'C11'}
                if a == 'order': r |= {'C17'}
                if 'x' in fl: r |= {'C07'}
                if 't' in fl: r |= {'C08'}
                if 'm' in fl: r |= {'C13'}
                if 'r' in fl and a == 'react': r |= {'C18'}
            elif a in ('copy',): r |= {'C17', 'C11'}
            elif a in ('trig',): r |= {'C16'}
            elif a in ('snap', 'terminated'):
                r |= {'C15', 'C13'}
                if 'x' in fl: r |= {'C07'}
            elif a == 'outcome':
                r |= {'C07', 'C08'}
                if 'a' in fl: r |= {'C14'}
            elif a in ('alloc', 'flow'): r |= {'C14', 'C17', 'C09'}
            elif a == 'mem': r |= {'C14'}
            elif a == 'leak':
                r |= {'C14'}
                if 'x' in fl: r |= {'C07'}
            elif a in ('evleak', 'evlost'):
                r |= {'C14', 'C17', 'C11'}
                if 'm' in fl: r |= {'C13'}
                if 'x' in fl: r |= {'C07'}
            elif a == 'end':
                r |= {'C09', 'C10', 'C11'}
                if 'x' in fl: r |= {'C07'}
                if 't' in fl: r |= {'C08'}
                if 'm' in fl: r |= {'C13'}
            elif a in ('crash', 'assert', 'hang'): r |= set('C%02d' % i for i in range(7, 19))
            elif a == 'rtti': r |= {'C20'}
            elif a == 'flying': r |= {'C08'}
        # a machine that was torn down, handled an exception or was reset earlier has to go on as if new; whether that
        # earlier operation matters is found out by minimising the history
        if 'u' in fl: r |= {'C07'}
        if 'v' in fl: r |= {'C08'}
        if 'w' in fl: r |= {'C13'}
        if 'n' in fl: r |= {'C21'} # another machine was used; whether that matters is found out the same way
        return r
    def rule(self, prop):
        return ('One evaluation is one simulated history: a generated chart, a sequence of machine operations, and for every user callback what it does (reaction chosen, events posted, exception thrown) and which allocations fail, all drawn from the seed. '
                'Distinct: the hash over the complete trace (every callback, copy, failure and outcome in order) differs. Non-trivial: at least one exception was thrown or allocation failed.')
    def coverage(self, prop, t, notes):
        return dict(
            fault_kinds_injected={'exception thrown from: ' + k: v for k, v in sorted(t.get('exceptions_in', {}).items())} | {'failing allocation': t.get('allocation_failures', 0), 'machine destroyed at an arbitrary point': t.get('recreations', 0), 'operation on another machine from inside a callback': t.get('operations_nested_in_another_machine', 0)},
            simulated_time={'operations': t.get('operations', 0), 'user callbacks': t.get('callbacks', 0), 'note': 'the code under test uses no clock or timer, so logical time is counted in operations and callbacks'},
            states_measure={'distinct histories': t.get('distinct_histories', 0), 'distinct machine states (configuration, queues, histories; summed over workers)': t.get('distinct_machine_states', 0)},
            charts=notes.get('charts'), charts_left_out=notes.get('left_out'),
            real_components=['state_machine, simple_state, state, all reactions, events, history and their detail headers, compiled with AddressSanitizer'],
            stub_components=['user code of the charts (callbacks decided by the seed), the allocators given to machine and events, global operator new/delete'])
    def assumptions(self, prop):
        return ['charts are generated from a fixed family (up to six levels, four orthogonal regions per state, four event types) and do not use every template form a user could write',
                'the order in which the reaction search visits innermost states is taken from the execution: the documentation leaves it open']
