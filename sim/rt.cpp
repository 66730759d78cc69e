#include "rt.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <new>
#include <atomic>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <dlfcn.h>

extern "C" { extern char __libc_single_threaded; void * __cxa_get_globals() noexcept; }
extern "C" char __data_start, _end;

namespace
{
using rt::MAXF;
typedef std::uint32_t u32; typedef std::uint64_t u64; typedef std::uintptr_t uptr;

const u32 CLK = 0x0FFFFFFF;                  // epoch = fiber << 28 | clock
const u32 ATOMIC = 0x80000000;               // flag in Cell::rpc: an atomic write happened here
const u32 FREED = 0xFFFFFFFF, NOTALLOC = 0xFFFFFFFE; // values of Cell::w
struct Cell { u32 w, r, wpc, rpc; };         // r: epoch, or 0xF0000000 | index into shared readers
struct VC { u32 c[ MAXF ]; void join( const VC & o ) { for ( int i = 0; i < MAXF; ++i ) if ( o.c[ i ] > c[ i ] ) c[ i ] = o.c[ i ]; } };

const uptr ARENA = 0x200000000000ull, STACKS = 0x210000000000ull;
const std::size_t ARENA_SIZE = 3u << 20, STACK_SIZE = 256u << 10;
Cell * arenaShadow, * stackShadow, * dataShadow;
uptr dataLo, dataHi, dataTouchLo, dataTouchHi;
uptr stackTouch[ MAXF ];                     // lowest shadowed address touched per stack
std::size_t arenaUsed;
struct SharedRead { u32 c[ MAXF ]; };
const u32 MAXSHARED = 200000;
SharedRead * sharedReads; u32 nShared;

enum State { Unused, Runnable, BlockedMutex, BlockedCond, BlockedJoin, BlockedQuiet, Finished };
struct Fiber
{
  void * sp; State st; int id; VC vc; VC relFence; VC acqPending;
  void * waitObj; int joinTarget; bool signalled; int timedOut;
  void ( *fn )( void * ); void * arg;
  char eh[ 16 ];
  u64 syncNo, memNo; int prio; int locks; int failIn; bool failed; int initFailIn; bool yielded; bool timed; u64 deadline; const volatile void * spinAt; void * spinPc; int spins;
};
Fiber fibers[ MAXF ]; int nFibers; Fiber * cur;
char hostEh[ 16 ]; void * hostSp;
bool inRun, aborting;
rt::SchedConfig cfg; rt::Rng rng; rt::Stats st;
rt::Outcome outcome;
char vClass[ 64 ], vText[ 2048 ];
u64 steps; u64 nextMem;
u64 vclock; int idleTimeouts; // the simulated clock, in nanoseconds; timers that fired in a row because nothing else could run
const u64 EPOCH0 = 1700000000ull * 1000000000ull;
u64 pctPoints[ 16 ]; int pctN; int pctLow;

// deviations
const std::size_t MAXDEV = 400000;
rt::Deviation * devs; std::size_t nDevs;
const rt::Deviation * rep; std::size_t nRep;
// replay lookup: per fiber and kind, sorted by n
struct RepIdx { const rt::Deviation * d[ 1 ]; };
std::size_t repHead[ MAXF ][ 2 ]; // next index to look at (linear scan over rep)

rt::Ev * evs; std::size_t nEvs; const std::size_t MAXEV = 200000; u32 seqNo;

// sync objects
struct Mtx { uptr addr; int owner; int depth; int kind; VC vc; };
struct Cnd { uptr addr; };
struct Atm { uptr addr; VC vc; VC wr; u32 wpc; };
template< class T, int N > struct Table
{
  T * t; bool * used; int idx[ N ]; int n;
  void init() { t = (T *)std::calloc( N, sizeof( T ) ); used = (bool *)std::calloc( N, 1 ); n = 0; }
  static unsigned h( uptr a ) { return unsigned( ( a * 0x9E3779B97F4A7C15ull ) >> 40 ) % N; }
  T & get( uptr a, bool & fresh )
  {
    unsigned i = h( a );
    while ( used[ i ] && t[ i ].addr != a ) i = ( i + 1 ) % N;
    fresh = !used[ i ];
    if ( fresh ) { if ( n >= N - 8 ) { std::fprintf( stderr, "sync table full\n" ); _exit( 2 ); }
      used[ i ] = true; idx[ n++ ] = i; std::memset( &t[ i ], 0, sizeof( T ) ); t[ i ].addr = a; }
    return t[ i ];
  }
  T * find( uptr a ) { unsigned i = h( a ); while ( used[ i ] && t[ i ].addr != a ) i = ( i + 1 ) % N; return used[ i ] ? &t[ i ] : 0; }
  void clear() { for ( int i = 0; i < n; ++i ) used[ idx[ i ] ] = false; n = 0; }
};
Table< Mtx, 2048 > mtxs; Table< Atm, 8192 > atms;
VC slots[ 4096 ]; bool slotSet[ 4096 ];

// heap blocks
struct Blk { u32 size; u32 id; u32 pc; u32 live; };   // header stored 16 bytes before the block
u32 blkId; std::size_t liveBlk;
uptr freeHead[ 128 ];                                   // released blocks by size / 16, last released first

void mix( u64 v ) { st.schedHash = ( st.schedHash ^ v ) * 0x100000001b3ull; st.schedHash ^= st.schedHash >> 29; }

extern "C" void sim_switch( void ** from, void * to );
asm( R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)" );

void switchTo( Fiber * t )
{
  Fiber * f = cur;
  if ( t == f ) return;
  std::memcpy( f->eh, __cxa_get_globals(), 16 );
  std::memcpy( __cxa_get_globals(), t->eh, 16 );
  cur = t; ++st.switches;
  sim_switch( &f->sp, t->sp );
}
void switchToHost()
{
  void * dummy; std::memcpy( __cxa_get_globals(), hostEh, 16 );
  cur = 0; sim_switch( &dummy, hostSp );
  _exit( 2 );
}

void record( char kind, Fiber * f, u64 n, int v )
{
  if ( nDevs < MAXDEV ) { rt::Deviation d = { kind, f->id, n, v }; devs[ nDevs++ ] = d; }
}
bool lookup( char kind, Fiber * f, u64 n, int & v )
{
  int k = kind == 'M';
  std::size_t & h = repHead[ f->id ][ k ];
  while ( h < nRep && ( rep[ h ].fiber != f->id || rep[ h ].kind != kind || rep[ h ].n < n ) ) ++h;
  if ( h < nRep && rep[ h ].n == n ) { v = rep[ h ].v; return true; }
  return false;
}

void fail( const char * cls, const char * fmt, va_list ap )
{
  if ( !aborting )
  {
    aborting = true; outcome = rt::Violated;
    std::snprintf( vClass, sizeof vClass, "%s", cls );
    std::vsnprintf( vText, sizeof vText, fmt, ap );
  }
  switchToHost();
}

int choosePct( u32 runnable )
{
  int best = -1;
  for ( int i = 0; i < nFibers; ++i ) if ( ( runnable >> i ) & 1 )
    if ( best < 0 || fibers[ i ].prio > fibers[ best ].prio ) best = i;
  return best;
}

// Pick who runs next.  Called with the current fiber's state already set.  blocking: the current fiber cannot go on.
void reschedule( bool blocking )
{
  Fiber * f = cur;
  ++steps; ++st.syncPoints;
  if ( steps > cfg.maxSteps ) { outcome = rt::StepLimit; aborting = true; switchToHost(); }
  u32 runnable = 0, waiters = 0; int quiet = -1;
  for ( int i = 0; i < nFibers; ++i )
  {
    if ( fibers[ i ].st == Runnable ) runnable |= 1u << i;
    else if ( fibers[ i ].st == BlockedCond ) waiters |= 1u << i;
    else if ( fibers[ i ].st == BlockedQuiet ) quiet = i;
  }
  u64 no = ++f->syncNo;
  if ( !runnable && waiters && ( idleTimeouts < 8 || quiet < 0 ) )
  {
    // nothing can run before time passes: the timer that is due first fires
    int v = -1; for ( int i = 0; i < nFibers; ++i ) if ( ( ( waiters >> i ) & 1 ) && fibers[ i ].timed && ( v < 0 || fibers[ i ].deadline < fibers[ v ].deadline ) ) v = i;
    if ( v >= 0 ) { ++idleTimeouts; fibers[ v ].st = Runnable; fibers[ v ].signalled = false; switchTo( &fibers[ v ] ); return; }
  }
  if ( !runnable )
  {
    idleTimeouts = 0;
    // nothing can run: quiescence, reported to the fiber waiting for it
    if ( quiet < 0 )
    {
      va_list ap; std::memset( &ap, 0, sizeof ap );
      outcome = rt::Violated; aborting = true;
      std::snprintf( vClass, sizeof vClass, "deadlock" );
      std::snprintf( vText, sizeof vText, "no fiber can run and nobody waits for quiescence" );
      switchToHost();
    }
    fibers[ quiet ].st = Runnable;
    // everything before quiescence is visible to the one that waited for it only through real synchronisation:
    // no happens-before edge here
    switchTo( &fibers[ quiet ] );
    return;
  }
  int def = ( !blocking && ( ( runnable >> f->id ) & 1 ) ) ? f->id : __builtin_ctz( runnable );
  if ( f->yielded && !blocking && ( runnable & ~( 1u << f->id ) ) )
  { // an explicit yield hands over by default
    u32 others = runnable & ~( 1u << f->id ); u32 above = others >> ( f->id + 1 ) << ( f->id + 1 );
    def = __builtin_ctz( above ? above : others );
  }
  const bool yielding = f->yielded; f->yielded = false;
  int v = def;
  if ( cfg.replay )
  {
    int r;
    if ( lookup( 'S', f, no, r ) && r >= 0 && r < nFibers && ( ( ( runnable | waiters ) >> r ) & 1 ) ) v = r;
  }
  else
  {
    if ( waiters && cfg.spuriousDen && rng.below( cfg.spuriousDen ) == 0 )
    {
      u32 w = waiters; int k = rng.below( __builtin_popcount( w ) );
      while ( k-- ) w &= w - 1;
      v = __builtin_ctz( w );
    }
    else if ( cfg.strategy == 1 )
    {
      for ( int i = 0; i < pctN; ++i ) if ( pctPoints[ i ] == steps ) f->prio = --pctLow;
      if ( yielding ) f->prio = --pctLow;
      v = choosePct( runnable );
    }
    else if ( cfg.strategy == 0 )
    {
      if ( blocking || def != f->id || rng.below( cfg.switchDen ) < cfg.switchNum )
      {
        u32 w = runnable; int k = rng.below( __builtin_popcount( w ) );
        while ( k-- ) w &= w - 1;
        v = __builtin_ctz( w );
      }
    }
  }
  if ( v != def ) record( 'S', f, no, v );
  Fiber * t = &fibers[ v ];
  if ( t->st == BlockedCond ) { t->st = Runnable; t->signalled = false; ++st.spurious; }
  if ( t != f ) { if ( !blocking ) ++st.preemptions; mix( ( u64( f->id ) << 8 | v ) * 1000003 + no ); }
  switchTo( t );
}

void syncPoint()
{
  if ( !cur || aborting ) return;
  reschedule( false );
}

void memPoint()
{
  Fiber * f = cur; u64 no = ++f->memNo; ++st.memAccesses;
  if ( no > cfg.maxAccesses ) { outcome = rt::StepLimit; aborting = true; switchToHost(); }
  int v = -1;
  if ( cfg.replay )
  {
    int r; if ( nRep && lookup( 'M', f, no, r ) ) v = r;
  }
  else if ( nextMem && --nextMem == 0 )
  {
    nextMem = 1 + rng.below( 2 * cfg.memDen );
    u32 runnable = 0; for ( int i = 0; i < nFibers; ++i ) if ( fibers[ i ].st == Runnable ) runnable |= 1u << i;
    int k = rng.below( __builtin_popcount( runnable ) );
    while ( k-- ) runnable &= runnable - 1;
    v = __builtin_ctz( runnable );
  }
  if ( v >= 0 && v < nFibers && v != f->id && fibers[ v ].st == Runnable )
  {
    record( 'M', f, no, v ); ++st.memPreempts; mix( ( u64( f->id ) << 8 | v ) * 7919 + no );
    switchTo( &fibers[ v ] );
  }
}

bool happensBefore( u32 epoch, Fiber * f ) { return ( epoch & CLK ) <= f->vc.c[ epoch >> 28 ]; }
u32 epochOf( Fiber * f ) { return u32( f->id ) << 28 | f->vc.c[ f->id ]; }

Cell * cellOf( uptr a )
{
  if ( a - ARENA < ARENA_SIZE ) return arenaShadow + ( a - ARENA );
  if ( a - STACKS < STACK_SIZE * MAXF )
  {
    int k = int( ( a - STACKS ) / STACK_SIZE );
    if ( a < stackTouch[ k ] ) stackTouch[ k ] = a;
    return stackShadow + ( a - STACKS );
  }
  if ( a >= dataLo && a < dataHi )
  {
    if ( a < dataTouchLo ) dataTouchLo = a;
    if ( a + 16 > dataTouchHi ) dataTouchHi = a + 16;
    return dataShadow + ( a - dataLo );
  }
  return 0;
}

[[noreturn]] void badAccess( const char * cls, uptr a, bool write, u32 pc, const char * how, u32 otherPc, int other )
{
  va_list * none = 0; (void)none;
  const char * where = a - ARENA < ARENA_SIZE ? "heap" : a - STACKS < STACK_SIZE * MAXF ? "a stack" : "static data";
  if ( !aborting )
  {
    aborting = true; outcome = rt::Violated;
    std::snprintf( vClass, sizeof vClass, "%s", cls );
    std::snprintf( vText, sizeof vText, "%s: %s of %s memory (0x%llx) by fiber %d at pc=0x%x, %s fiber %d at pc=0x%x",
      cls, write ? "write" : "read", where, (unsigned long long)a, cur->id, pc, how, other, otherPc );
  }
  switchToHost();
  _exit( 2 );
}

void checkAtomic( Cell & c, uptr a, bool write, u32 pc, Fiber * f )
{
  for ( int back = 0; back < 8; ++back )
  {
    uptr b = a - back; unsigned i = atms.h( b );
    while ( atms.used[ i ] && atms.t[ i ].addr != b ) i = ( i + 1 ) % 8192;
    if ( !atms.used[ i ] ) continue;
    for ( int k = 0; k < nFibers; ++k ) if ( k != f->id && atms.t[ i ].wr.c[ k ] > f->vc.c[ k ] )
      badAccess( "data-race", a, write, pc, "not ordered after an atomic write by", atms.t[ i ].wpc, k );
    return;
  }
  (void)c;
}

inline void checkByte( Cell & c, uptr a, bool write, u32 pc, Fiber * f )
{
  if ( c.w >= NOTALLOC )
    badAccess( c.w == FREED ? "use-after-free" : "out-of-bounds", a, write, pc,
      c.w == FREED ? "freed by" : "not allocated, last owner", c.wpc, c.w == FREED ? int( c.r ) : -1 );
  u32 e = epochOf( f );
  if ( c.rpc & ATOMIC ) checkAtomic( c, a, write, pc, f );
  if ( write )
  {
    if ( c.w == e && c.r == 0 ) return;
    if ( c.w && ( c.w >> 28 ) != u32( f->id ) && !happensBefore( c.w, f ) )
      badAccess( "data-race", a, write, pc, "not ordered after a write by", c.wpc, c.w >> 28 );
    if ( c.r )
    {
      if ( ( c.r >> 28 ) == 15 )
      {
        SharedRead & s = sharedReads[ c.r & CLK ];
        for ( int i = 0; i < nFibers; ++i ) if ( s.c[ i ] > f->vc.c[ i ] )
          badAccess( "data-race", a, write, pc, "not ordered after a read by", c.rpc, i );
      }
      else if ( ( c.r >> 28 ) != u32( f->id ) && !happensBefore( c.r, f ) )
        badAccess( "data-race", a, write, pc, "not ordered after a read by", c.rpc, c.r >> 28 );
    }
    c.w = e; c.r = 0; c.wpc = pc;
  }
  else
  {
    if ( c.r == e ) return;
    if ( c.w && ( c.w >> 28 ) != u32( f->id ) && !happensBefore( c.w, f ) )
      badAccess( "data-race", a, write, pc, "not ordered after a write by", c.wpc, c.w >> 28 );
    if ( c.r && ( c.r >> 28 ) == 15 ) sharedReads[ c.r & CLK ].c[ f->id ] = f->vc.c[ f->id ];
    else if ( c.r && ( c.r >> 28 ) != u32( f->id ) && !happensBefore( c.r, f ) && nShared < MAXSHARED )
    {
      SharedRead & s = sharedReads[ nShared ];
      std::memset( &s, 0, sizeof s );
      s.c[ c.r >> 28 ] = c.r & CLK; s.c[ f->id ] = f->vc.c[ f->id ];
      c.r = 15u << 28 | nShared++;
    }
    else { c.r = e; c.rpc = pc | ( c.rpc & ATOMIC ); }
  }
}

void access( uptr a, std::size_t n, bool write, void * pcp )
{
  Fiber * f = cur;
  if ( !f || aborting ) return;
  if ( a - STACKS < STACK_SIZE * MAXF && int( ( a - STACKS ) / STACK_SIZE ) == f->id )
  {
    // own stack: nobody else looks at most of it, so no preemption is useful, but record the access
  }
  else memPoint();
  Cell * c = cellOf( a );
  if ( !c ) return;
  u32 pc = u32( reinterpret_cast< uptr >( pcp ) );
  for ( std::size_t i = 0; i < n; ++i ) checkByte( c[ i ], a + i, write, pc, f );
}

void acquireVC( Fiber * f, const VC & v ) { f->vc.join( v ); }
void releaseTick( Fiber * f ) { ++f->vc.c[ f->id ]; }

Mtx & mtx( const void * p ) { bool fresh; Mtx & m = mtxs.get( reinterpret_cast< uptr >( p ), fresh ); if ( fresh ) m.owner = -1; return m; }

extern "C" void fiberMain();
void fiberBody()
{
  Fiber * f = cur;
  try { f->fn( f->arg ); }
  catch ( ... ) { va_list ap; std::memset( &ap, 0, sizeof ap ); aborting = true; outcome = rt::Violated;
    std::snprintf( vClass, sizeof vClass, "stray-exception" ); std::snprintf( vText, sizeof vText, "an exception left fiber %d", f->id ); switchToHost(); }
  f->st = Finished; releaseTick( f );
  for ( int i = 0; i < nFibers; ++i )
    if ( fibers[ i ].st == BlockedJoin && fibers[ i ].joinTarget == f->id ) fibers[ i ].st = Runnable;
  if ( f->id == 0 ) switchToHost();
  reschedule( true );
  _exit( 2 );
}
extern "C" void fiberMain() { fiberBody(); }

Fiber * newFiber( void ( *fn )( void * ), void * arg )
{
  if ( nFibers >= MAXF ) { std::fprintf( stderr, "too many fibers\n" ); _exit( 2 ); }
  Fiber * f = &fibers[ nFibers ];
  std::memset( f, 0, sizeof *f );
  f->id = nFibers++; f->fn = fn; f->arg = arg; f->st = Runnable;
  uptr top = STACKS + STACK_SIZE * ( f->id + 1 ) - 64;
  void ** sp = reinterpret_cast< void ** >( top & ~uptr( 15 ) );
  *--sp = 0;                       // so that rsp is 8 mod 16 at the entry of fiberMain
  *--sp = reinterpret_cast< void * >( &fiberMain );
  for ( int i = 0; i < 6; ++i ) *--sp = 0;
  f->sp = sp;
  f->vc.c[ f->id ] = 1;
  f->prio = cfg.replay ? 0 : int( rng.below( 1000000 ) ) + 10;
  return f;
}

void resetRun()
{
  if ( !arenaShadow )
  {
    void * a = mmap( (void *)ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0 );
    void * s = mmap( (void *)STACKS, STACK_SIZE * MAXF, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0 );
    if ( a != (void *)ARENA || s != (void *)STACKS ) { std::fprintf( stderr, "cannot map the simulation memory\n" ); _exit( 2 ); }
    auto big = []( std::size_t n ) { void * p = mmap( 0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
      if ( p == MAP_FAILED ) { std::fprintf( stderr, "mmap failed\n" ); _exit( 2 ); } return p; };
    arenaShadow = (Cell *)big( ARENA_SIZE * sizeof( Cell ) );
    stackShadow = (Cell *)big( STACK_SIZE * MAXF * sizeof( Cell ) );
    dataLo = reinterpret_cast< uptr >( &__data_start ); dataHi = reinterpret_cast< uptr >( &_end );
    dataShadow = (Cell *)big( ( dataHi - dataLo + 16 ) * sizeof( Cell ) );
    dataTouchLo = dataHi; dataTouchHi = dataLo;
    for ( int i = 0; i < MAXF; ++i ) stackTouch[ i ] = STACKS + STACK_SIZE * ( i + 1 );
    sharedReads = (SharedRead *)big( MAXSHARED * sizeof( SharedRead ) );
    devs = (rt::Deviation *)big( MAXDEV * sizeof( rt::Deviation ) );
    evs = (rt::Ev *)big( MAXEV * sizeof( rt::Ev ) );
    mtxs.init(); atms.init();
    arenaUsed = 0;
    Cell c = { NOTALLOC, 0, 0, 0 };
    for ( std::size_t i = 0; i < ARENA_SIZE; ++i ) arenaShadow[ i ] = c;
  }
  Cell c = { NOTALLOC, 0, 0, 0 };
  for ( std::size_t i = 0; i < arenaUsed; ++i ) arenaShadow[ i ] = c;
  for ( int i = 0; i < MAXF; ++i )
  {
    uptr top = STACKS + STACK_SIZE * ( i + 1 );
    if ( stackTouch[ i ] < top ) std::memset( stackShadow + ( stackTouch[ i ] - STACKS ), 0, ( top - stackTouch[ i ] ) * sizeof( Cell ) );
    stackTouch[ i ] = top;
  }
  if ( dataTouchLo < dataTouchHi )
  {
    if ( dataTouchHi > dataHi ) dataTouchHi = dataHi;
    std::memset( dataShadow + ( dataTouchLo - dataLo ), 0, ( dataTouchHi - dataTouchLo ) * sizeof( Cell ) );
  }
  dataTouchLo = dataHi; dataTouchHi = dataLo;
  arenaUsed = 0; nShared = 0; nDevs = 0; nEvs = 0; seqNo = 0; nFibers = 0; cur = 0; steps = 0; vclock = EPOCH0; idleTimeouts = 0; blkId = 0; liveBlk = 0; std::memset( freeHead, 0, sizeof freeHead );
  mtxs.clear(); atms.clear(); std::memset( slotSet, 0, sizeof slotSet );
  std::memset( repHead, 0, sizeof repHead );
  st = rt::Stats(); st.schedHash = 1469598103934665603ull;
  aborting = false; outcome = rt::Ok; vClass[ 0 ] = vText[ 0 ] = 0;
}

void ( *crashCb )( int );
void crashHandler( int sig )
{
  signal( sig, SIG_DFL );
  cur = 0;
  if ( crashCb ) crashCb( sig );
  _exit( 2 );
}
void * arenaAlloc( std::size_t n, void * pc )
{
  Fiber * f = cur;
  ++st.allocs;
  if ( f->failIn > 0 && --f->failIn == 0 ) { f->failed = true; ++st.allocFaults; return 0; }
  std::size_t need = ( ( n + 15 ) & ~std::size_t( 15 ) ) + 32;
  const std::size_t cls = need / 16; uptr p;
  if ( cfg.reuse && cls < 128 && freeHead[ cls ] )
  {
    p = freeHead[ cls ]; std::memcpy( &freeHead[ cls ], (void *)p, sizeof( uptr ) ); ++st.reused;
    for ( uptr a = p; a < p + n; a += 4 ) // what was synchronised through the old object says nothing about the new one
    {
      if ( Mtx * m = mtxs.find( a ) ) { std::memset( (void *)m, 0, sizeof *m ); m->addr = a; m->owner = -1; }
      if ( Atm * m = atms.find( a ) ) { std::memset( (void *)m, 0, sizeof *m ); m->addr = a; }
    }
  }
  else
  {
    if ( arenaUsed + need > ARENA_SIZE ) { outcome = rt::StepLimit; aborting = true; switchToHost(); }
    p = ARENA + arenaUsed + 16;
    arenaUsed += need;
  }
  Blk * b = reinterpret_cast< Blk * >( p - 16 );
  b->size = u32( n ); b->id = ++blkId; b->pc = u32( reinterpret_cast< uptr >( pc ) ); b->live = 0x51BEB10C;
  ++liveBlk;
  Cell * c = arenaShadow + ( p - ARENA ); u32 e = epochOf( f );
  for ( std::size_t i = 0; i < n; ++i ) { c[ i ].w = e; c[ i ].r = 0; c[ i ].wpc = b->pc; c[ i ].rpc = 0; }
  std::memset( (void *)p, 0xCD, n );
  return (void *)p;
}
void arenaFree( void * p, void * pc )
{
  Fiber * f = cur; uptr a = reinterpret_cast< uptr >( p );
  if ( !f || aborting ) return;
  Blk * b = reinterpret_cast< Blk * >( a - 16 );
  u32 pc32 = u32( reinterpret_cast< uptr >( pc ) );
  if ( b->live != 0x51BEB10C ) badAccess( "double-free", a, true, pc32, "freed before by", 0, -1 );
  Cell * c = arenaShadow + ( a - ARENA );
  for ( std::size_t i = 0; i < b->size; ++i ) checkByte( c[ i ], a + i, true, pc32, f );
  for ( std::size_t i = 0; i < b->size; ++i ) { c[ i ].w = FREED; c[ i ].r = u32( f->id ); c[ i ].wpc = pc32; }
  std::memset( p, 0xDD, b->size );
  b->live = 0; --liveBlk;
  const std::size_t cls = ( ( ( b->size + 15 ) & ~std::size_t( 15 ) ) + 32 ) / 16;
  if ( cfg.reuse && cls < 128 && b->size >= sizeof( uptr ) ) { std::memcpy( p, &freeHead[ cls ], sizeof( uptr ) ); freeHead[ cls ] = a; }
}
} // namespace

namespace rt
{
Outcome run( const SchedConfig & c, void ( *mainFiber )( void * ), void * arg )
{
  __libc_single_threaded = 0;
  cfg = c; rng = Rng( c.seed );
  resetRun();
  if ( !cfg.replay )
  {
    nextMem = cfg.memDen ? 1 + rng.below( 2 * cfg.memDen ) : 0;
    pctN = cfg.pctDepth > 15 ? 15 : cfg.pctDepth; pctLow = 9;
    for ( int i = 0; i < pctN; ++i ) pctPoints[ i ] = 1 + rng.below( cfg.pctLength ? cfg.pctLength : 1 );
  }
  std::memcpy( hostEh, __cxa_get_globals(), 16 );
  Fiber * f = newFiber( mainFiber, arg );
  cur = f; inRun = true;
  std::memcpy( __cxa_get_globals(), f->eh, 16 );
  sim_switch( &hostSp, f->sp );
  inRun = false; cur = 0;
  return outcome;
}
const char * violationClass() { return vClass; }
const char * violationText() { return vText; }
const Deviation * deviations( std::size_t & n ) { n = nDevs; return devs; }
void setReplay( const Deviation * d, std::size_t n ) { rep = d; nRep = n; }
const Stats & stats() { return st; }
void installCrashHandler( void ( *cb )( int ) )
{
  crashCb = cb;
  static char * alt = (char *)std::malloc( 65536 );
  stack_t ss; std::memset( &ss, 0, sizeof ss ); ss.ss_sp = alt; ss.ss_size = 65536; sigaltstack( &ss, 0 );
  struct sigaction sa; std::memset( &sa, 0, sizeof sa ); sa.sa_handler = crashHandler; sa.sa_flags = SA_ONSTACK;
  int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT };
  for ( int s : sigs ) sigaction( s, &sa, 0 );
}
int self() { return cur ? cur->id : -1; }
bool inFiber() { return cur != 0; }
int spawn( void ( *fn )( void * ), void * arg )
{
  Fiber * p = cur; Fiber * f = newFiber( fn, arg );
  f->vc.join( p->vc ); f->vc.c[ f->id ] = 1; releaseTick( p );
  return f->id;
}
void join( int k )
{
  Fiber * f = cur;
  while ( fibers[ k ].st != Finished ) { f->st = BlockedJoin; f->joinTarget = k; reschedule( true ); }
  acquireVC( f, fibers[ k ].vc );
}
bool finished( int k ) { return fibers[ k ].st == Finished; }
bool blockedInWait( int k ) { return fibers[ k ].st == BlockedCond && fibers[ k ].waitObj; }
bool blockedOnLock( int k ) { return fibers[ k ].st == BlockedMutex; }
void waitQuiescent() { Fiber * f = cur; f->st = BlockedQuiet; reschedule( true ); }
void yieldPoint() { if ( cur && !aborting ) { cur->yielded = true; reschedule( false ); } }
int holdsLocks( int k ) { return fibers[ k ].locks; }
void violation( const char * cls, const char * fmt, ... )
{
  va_list ap; va_start( ap, fmt );
  if ( !cur ) { std::snprintf( vClass, sizeof vClass, "%s", cls ); std::vsnprintf( vText, sizeof vText, fmt, ap ); outcome = Violated; std::abort(); }
  fail( cls, fmt, ap ); va_end( ap );
  _exit( 2 );
}
void release( int s )
{
  Fiber * f = cur; if ( !slotSet[ s ] ) { std::memset( &slots[ s ], 0, sizeof( VC ) ); slotSet[ s ] = true; }
  slots[ s ].join( f->vc ); releaseTick( f );
}
bool acquire( int s ) { if ( !slotSet[ s ] ) return false; cur->vc.join( slots[ s ] ); return true; }
int suspendFailures() { int k = cur->failIn; cur->failIn = 0; return k; }
void resumeFailures( int k ) { cur->failIn = k; }
void failAllocation( int k ) { cur->failIn = k; cur->failed = false; }
bool allocationFailed() { return cur->failed; }
void failInit( int k ) { cur->initFailIn = k; }
std::size_t liveBlocks() { return liveBlk; }
u64 now() { return seqNo; }
void describeLive( char * buf, std::size_t n )
{
  std::size_t o = 0; uptr p = ARENA; int shown = 0;
  buf[ 0 ] = 0;
  while ( p < ARENA + arenaUsed && shown < 5 )
  {
    Blk * b = reinterpret_cast< Blk * >( p );
    if ( b->live == 0x51BEB10C ) { o += std::snprintf( buf + o, n - o, " [%u bytes from pc=0x%x]", b->size, b->pc ); ++shown; if ( o >= n ) return; }
    p += ( ( b->size + 15u ) & ~15ull ) + 32;
  }
}
void log( int kind, int a, int b, int c, int d )
{
  if ( nEvs < MAXEV ) { Ev e = { ++seqNo, std::uint8_t( cur ? cur->id : 255 ), std::uint8_t( kind ), a, b, c, d }; evs[ nEvs++ ] = e; }
}
const Ev * events( std::size_t & n ) { n = nEvs; return evs; }
u64 logHash()
{
  u64 h = 1469598103934665603ull;
  for ( std::size_t i = 0; i < nEvs; ++i )
  {
    u64 v[ 5 ] = { u64( evs[ i ].fiber ) << 8 | evs[ i ].kind, u64( u32( evs[ i ].a ) ), u64( u32( evs[ i ].b ) ), u64( u32( evs[ i ].c ) ), u64( u32( evs[ i ].d ) ) };
    for ( u64 x : v ) { h = ( h ^ x ) * 0x100000001b3ull; h ^= h >> 31; }
  }
  return h ^ st.schedHash;
}
} // namespace rt

// ---------------------------------------------------------------------------------------------- allocation
#define PC() __builtin_return_address( 0 )
void * operator new( std::size_t n )
{
  if ( cur && !aborting )
  {
    syncPoint();
    void * p = arenaAlloc( n, PC() );
    if ( !p ) throw std::bad_alloc();
    return p;
  }
  void * p = std::malloc( n ? n : 1 );
  if ( !p ) throw std::bad_alloc();
  return p;
}
void * operator new[]( std::size_t n ) { return operator new( n ); }
void * operator new( std::size_t n, const std::nothrow_t & ) noexcept
{
  if ( cur && !aborting ) { syncPoint(); return arenaAlloc( n, PC() ); }
  return std::malloc( n ? n : 1 );
}
void * operator new[]( std::size_t n, const std::nothrow_t & t ) noexcept { return operator new( n, t ); }
void operator delete( void * p ) noexcept
{
  if ( !p ) return;
  uptr a = reinterpret_cast< uptr >( p );
  if ( a - ARENA < ARENA_SIZE ) { if ( cur ) arenaFree( p, PC() ); return; }
  std::free( p );
}
void operator delete[]( void * p ) noexcept { operator delete( p ); }
void operator delete( void * p, std::size_t n ) noexcept
{
  uptr a = reinterpret_cast< uptr >( p );
  if ( p && a - ARENA < ARENA_SIZE && cur && !aborting )
  {
    Blk * b = reinterpret_cast< Blk * >( a - 16 );
    if ( b->live == 0x51BEB10C && n && b->size != n )
      badAccess( "wrong-size-free", a, true, u32( reinterpret_cast< uptr >( PC() ) ), "size differs from allocation by", b->pc, -1 );
  }
  operator delete( p );
}
void operator delete[]( void * p, std::size_t ) noexcept { operator delete( p ); }
void operator delete( void * p, const std::nothrow_t & ) noexcept { operator delete( p ); }

// ---------------------------------------------------------------------------------------------- pthreads
extern "C"
{
int pthread_mutex_init( pthread_mutex_t * m, const pthread_mutexattr_t * attr ) noexcept
{
  std::memset( m, 0, sizeof *m );
  int kind = 0; if ( attr ) pthread_mutexattr_gettype( attr, &kind );
  if ( cur && !aborting )
  {
    if ( cur->initFailIn > 0 && --cur->initFailIn == 0 ) { ++st.initFaults; return EAGAIN; }
    Mtx & x = mtx( m ); uptr a = x.addr; std::memset( &x, 0, sizeof x ); x.addr = a; x.owner = -1; x.kind = kind;
  }
  return 0;
}
int pthread_mutex_destroy( pthread_mutex_t * m ) noexcept
{
  if ( cur && !aborting )
  {
    Mtx & x = mtx( m );
    if ( x.owner >= 0 ) rt::violation( "lock-misuse", "a mutex is destroyed while locked by fiber %d", x.owner );
    for ( int i = 0; i < nFibers; ++i ) if ( fibers[ i ].st == BlockedMutex && fibers[ i ].waitObj == m )
      rt::violation( "lock-misuse", "a mutex is destroyed while fiber %d waits for it", i );
    access( reinterpret_cast< uptr >( m ), 1, true, PC() );
  }
  return 0;
}
static int lockImpl( pthread_mutex_t * m, bool tryOnly, void * pc )
{
  if ( !cur || aborting ) return 0;
  syncPoint();
  Fiber * f = cur;
  { Cell * c = cellOf( reinterpret_cast< uptr >( m ) ); if ( c && c->w >= NOTALLOC )
      badAccess( "use-after-free", reinterpret_cast< uptr >( m ), true, u32( reinterpret_cast< uptr >( pc ) ), "mutex freed by", c->wpc, -1 ); }
  Mtx * x = &mtx( m );
  if ( x->owner == f->id )
  {
    if ( x->kind == PTHREAD_MUTEX_RECURSIVE ) { ++x->depth; return 0; }
    if ( tryOnly ) return EBUSY;
    if ( x->kind == PTHREAD_MUTEX_ERRORCHECK ) return EDEADLK;
  }
  while ( x->owner >= 0 )
  {
    if ( tryOnly ) return EBUSY;
    ++st.contended;
    f->st = BlockedMutex; f->waitObj = m;
    reschedule( true );
    x = &mtx( m );
  }
  x->owner = f->id; x->depth = 1; ++f->locks;
  acquireVC( f, x->vc );
  return 0;
}
int pthread_mutex_lock( pthread_mutex_t * m ) noexcept { return lockImpl( m, false, PC() ); }
int pthread_mutex_trylock( pthread_mutex_t * m ) noexcept { return lockImpl( m, true, PC() ); }
int pthread_mutex_timedlock( pthread_mutex_t * m, const struct timespec * ) noexcept { return lockImpl( m, false, PC() ); }
static int unlockImpl( pthread_mutex_t * m, bool point )
{
  if ( !cur || aborting ) return 0;
  Fiber * f = cur; Mtx & x = mtx( m );
  if ( x.owner != f->id ) rt::violation( "lock-misuse", "fiber %d unlocks a mutex it does not hold", f->id );
  if ( --x.depth ) return 0;
  x.owner = -1; --f->locks; x.vc = f->vc; releaseTick( f );
  for ( int i = 0; i < nFibers; ++i ) if ( fibers[ i ].st == BlockedMutex && fibers[ i ].waitObj == m ) fibers[ i ].st = Runnable;
  if ( point ) syncPoint();
  return 0;
}
int pthread_mutex_unlock( pthread_mutex_t * m ) noexcept { return unlockImpl( m, true ); }

int pthread_cond_init( pthread_cond_t * c, const pthread_condattr_t * ) noexcept
{
  std::memset( c, 0, sizeof *c );
  if ( cur && !aborting && cur->initFailIn > 0 && --cur->initFailIn == 0 ) { ++st.initFaults; return EAGAIN; }
  return 0;
}
int pthread_cond_destroy( pthread_cond_t * c ) noexcept
{
  if ( cur && !aborting )
    for ( int i = 0; i < nFibers; ++i ) if ( fibers[ i ].st == BlockedCond && fibers[ i ].waitObj == c )
      rt::violation( "lock-misuse", "a condition variable is destroyed while fiber %d waits on it", i );
  return 0;
}
static int waitImpl( pthread_cond_t * c, pthread_mutex_t * m, bool timed, u64 deadline = 0 )
{
  if ( !cur ) { std::fprintf( stderr, "wait outside of the simulation\n" ); _exit( 2 ); }
  if ( aborting ) return 0;
  Fiber * f = cur; Mtx & x = mtx( m );
  if ( x.owner != f->id ) rt::violation( "lock-misuse", "fiber %d waits with a mutex it does not hold", f->id );
  ++st.condWaits;
  unlockImpl( m, false );
  f->st = BlockedCond; f->waitObj = c; f->signalled = false; f->timed = timed; f->deadline = deadline;
  reschedule( true );
  f->waitObj = 0; f->timed = false;
  const bool timeout = timed && !f->signalled;
  if ( timeout ) { if ( vclock < deadline ) vclock = deadline; vclock += 1000; }
  // re-acquire
  Mtx * y = &mtx( m );
  while ( y->owner >= 0 ) { f->st = BlockedMutex; f->waitObj = m; reschedule( true ); y = &mtx( m ); }
  y->owner = f->id; y->depth = 1; ++f->locks; acquireVC( f, y->vc );
  return timeout ? ETIMEDOUT : 0;
}
static u64 ns( const struct timespec * t ) { return u64( t->tv_sec ) * 1000000000ull + u64( t->tv_nsec ); }
int pthread_cond_wait( pthread_cond_t * c, pthread_mutex_t * m ) { return waitImpl( c, m, false ); }
int pthread_cond_timedwait( pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * t ) { return waitImpl( c, m, true, ns( t ) ); }
int pthread_cond_clockwait( pthread_cond_t * c, pthread_mutex_t * m, clockid_t, const struct timespec * t ) { return waitImpl( c, m, true, ns( t ) ); }
int pthread_cond_signal( pthread_cond_t * c ) noexcept
{
  if ( !cur || aborting ) return 0;
  syncPoint();
  ++st.notifies; idleTimeouts = 0;
  u32 w = 0; for ( int i = 0; i < nFibers; ++i ) if ( fibers[ i ].st == BlockedCond && fibers[ i ].waitObj == c ) w |= 1u << i;
  if ( !w ) { ++st.notifyNoWaiter; return 0; }
  int v = __builtin_ctz( w ), r; Fiber * f = cur; u64 no = ++f->syncNo;
  if ( w & ( w - 1 ) )
  {
    if ( cfg.replay ) { if ( lookup( 'S', f, no, r ) && r >= 0 && r < nFibers && ( ( w >> r ) & 1 ) ) { record( 'S', f, no, r ); v = r; } }
    else { int k = rng.below( __builtin_popcount( w ) ); u32 t = w; while ( k-- ) t &= t - 1; r = __builtin_ctz( t ); if ( r != v ) { v = r; record( 'S', f, no, v ); } }
  }
  fibers[ v ].st = Runnable; fibers[ v ].signalled = true;
  return 0;
}
int pthread_cond_broadcast( pthread_cond_t * c ) noexcept
{
  if ( !cur || aborting ) return 0;
  syncPoint();
  ++st.notifies; idleTimeouts = 0; bool any = false;
  for ( int i = 0; i < nFibers; ++i ) if ( fibers[ i ].st == BlockedCond && fibers[ i ].waitObj == c ) { fibers[ i ].st = Runnable; fibers[ i ].signalled = true; any = true; }
  if ( !any ) ++st.notifyNoWaiter;
  return 0;
}
// the simulated clock: it creeps on with every look at it and jumps when a timer fires
static void tellTime( u64 t, long * sec, long * sub, long unit ) { *sec = long( t / 1000000000ull ); *sub = long( t % 1000000000ull ) / unit; }
int clock_gettime( clockid_t id, struct timespec * t ) noexcept
{
  if ( !cur ) return int( syscall( SYS_clock_gettime, id, t ) );
  long a, b; tellTime( vclock += 1000, &a, &b, 1 ); t->tv_sec = a; t->tv_nsec = b; return 0;
}
int gettimeofday( struct timeval * t, void * z ) noexcept
{
  if ( !cur ) return int( syscall( SYS_gettimeofday, t, z ) );
  long a, b; tellTime( vclock += 1000, &a, &b, 1000 ); t->tv_sec = a; t->tv_usec = b; return 0;
}
time_t time( time_t * p ) noexcept
{
  if ( !cur ) { struct timespec t; syscall( SYS_clock_gettime, CLOCK_REALTIME, &t ); if ( p ) *p = t.tv_sec; return t.tv_sec; }
  const time_t t = time_t( ( vclock += 1000 ) / 1000000000ull ); if ( p ) *p = t; return t;
}
static void sleepUntil( u64 deadline )
{
  if ( aborting ) return;
  Fiber * f = cur;
  f->st = BlockedCond; f->waitObj = 0; f->signalled = false; f->timed = true; f->deadline = deadline;
  reschedule( true );
  f->timed = false; if ( vclock < deadline ) vclock = deadline;
}
int nanosleep( const struct timespec * t, struct timespec * r )
{
  if ( !cur ) return int( syscall( SYS_nanosleep, t, r ) );
  sleepUntil( vclock + ns( t ) ); return 0;
}
int clock_nanosleep( clockid_t id, int flags, const struct timespec * t, struct timespec * r )
{
  if ( !cur ) return int( syscall( SYS_clock_nanosleep, id, flags, t, r ) );
  sleepUntil( flags & TIMER_ABSTIME ? ns( t ) : vclock + ns( t ) ); return 0;
}
int usleep( unsigned us ) { struct timespec t = { long( us / 1000000 ), long( us % 1000000 ) * 1000 }; return nanosleep( &t, 0 ); }
int sched_yield() noexcept { rt::yieldPoint(); return 0; }
pthread_t pthread_self() noexcept { return pthread_t( 0x1000 + ( cur ? cur->id : 0 ) ); }

// function-local statics: initialisation happens before every later pass of the guard
int __cxa_guard_acquire( long long * g )
{
  if ( !cur || aborting ) { if ( *(char *)g ) return 0; *( (char *)g + 1 ) = 1; return 1; }
  syncPoint();
  for ( ;; )
  {
    bool fresh; Atm & a = atms.get( reinterpret_cast< uptr >( g ), fresh );
    if ( *(char *)g ) { cur->vc.join( a.vc ); return 0; }
    if ( !*( (char *)g + 1 ) ) { *( (char *)g + 1 ) = 1; return 1; }
    rt::yieldPoint();
  }
}
void __cxa_guard_release( long long * g )
{
  *( (char *)g + 1 ) = 0; *(char *)g = 1;
  if ( cur && !aborting ) { bool fresh; Atm & a = atms.get( reinterpret_cast< uptr >( g ), fresh ); a.vc.join( cur->vc ); releaseTick( cur ); }
}
void __cxa_guard_abort( long long * g ) { *( (char *)g + 1 ) = 0; }

// ---------------------------------------------------------------------------------------------- __tsan_*
void __tsan_init() {}
void __tsan_func_entry( void * ) {}
void __tsan_func_exit() {}
#define RW( n ) \
  void __tsan_read##n( void * p ) { access( (uptr)p, n, false, PC() ); } \
  void __tsan_write##n( void * p ) { access( (uptr)p, n, true, PC() ); } \
  void __tsan_unaligned_read##n( void * p ) { access( (uptr)p, n, false, PC() ); } \
  void __tsan_unaligned_write##n( void * p ) { access( (uptr)p, n, true, PC() ); } \
  void __tsan_volatile_read##n( void * p ) { access( (uptr)p, n, false, PC() ); } \
  void __tsan_volatile_write##n( void * p ) { access( (uptr)p, n, true, PC() ); } \
  void __tsan_read##n##_pc( void * p, void * pc ) { access( (uptr)p, n, false, pc ); } \
  void __tsan_write##n##_pc( void * p, void * pc ) { access( (uptr)p, n, true, pc ); }
RW( 1 ) RW( 2 ) RW( 4 ) RW( 8 ) RW( 16 )
void __tsan_read_range( void * p, unsigned long n ) { access( (uptr)p, n, false, PC() ); }
void __tsan_write_range( void * p, unsigned long n ) { access( (uptr)p, n, true, PC() ); }
void __tsan_vptr_update( void ** p, void * v ) { if ( *p != v ) access( (uptr)p, 8, true, PC() ); else access( (uptr)p, 8, false, PC() ); }
void __tsan_vptr_read( void ** p ) { access( (uptr)p, 8, false, PC() ); }
}

namespace
{
// memory orders as the compiler passes them: relaxed 0, consume 1, acquire 2, release 3, acq_rel 4, seq_cst 5
bool acq( int mo ) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
bool rel( int mo ) { return mo == 3 || mo == 4 || mo == 5; }
void atomicPre( const volatile void * p, std::size_t n, bool write, void * pc )
{
  // the same access to the same place again and again: a spin lock, which gives others a chance to run sooner or later
  if ( cur && !aborting ) { if ( cur->spinAt == p && cur->spinPc == pc ) { if ( ++cur->spins >= 64 ) { cur->yielded = true; cur->spins = 0; } } else { cur->spinAt = p; cur->spinPc = pc; cur->spins = 0; } }
  syncPoint(); ++st.atomics;
  Cell * c = cellOf( (uptr)p );
  if ( c ) for ( std::size_t i = 0; i < n; ++i ) if ( c[ i ].w >= NOTALLOC )
    badAccess( c[ i ].w == FREED ? "use-after-free" : "out-of-bounds", (uptr)p, write, u32( (uptr)pc ), "atomic access; freed at", c[ i ].wpc, -1 );
  // an atomic access races with an unordered plain write (and an atomic write with a plain read); atomic accesses do
  // not race among themselves, so they leave no trace in the shadow of plain accesses
  Fiber * f = cur;
  if ( c ) for ( std::size_t i = 0; i < n; ++i )
  {
    Cell & x = c[ i ];
    if ( x.w && ( x.w >> 28 ) != u32( f->id ) && !happensBefore( x.w, f ) ) badAccess( "data-race", (uptr)p, write, u32( (uptr)pc ), "atomic, not ordered after a plain write by", x.wpc, x.w >> 28 );
  }
}
void atomicWrote( const volatile void * p, std::size_t n, void * pc )
{
  bool fresh; Atm & a = atms.get( (uptr)p, fresh );
  a.wr.c[ cur->id ] = cur->vc.c[ cur->id ]; a.wpc = u32( (uptr)pc );
  Cell * c = cellOf( (uptr)p );
  if ( c ) for ( std::size_t i = 0; i < n; ++i ) c[ i ].rpc |= ATOMIC;
}
void atomicAcq( const volatile void * p, int mo )
{
  bool fresh; Atm & a = atms.get( (uptr)p, fresh );
  if ( fresh ) return;
  if ( acq( mo ) ) cur->vc.join( a.vc ); else cur->acqPending.join( a.vc );
}
void atomicRel( const volatile void * p, int mo, bool rmw )
{
  bool fresh; Atm & a = atms.get( (uptr)p, fresh );
  if ( !rmw ) std::memset( &a.vc, 0, sizeof a.vc );
  if ( rel( mo ) ) { a.vc.join( cur->vc ); releaseTick( cur ); }
  else a.vc.join( cur->relFence );
}
template< class T > T aload( const volatile T * p, int mo, void * pc )
{
  if ( !cur || aborting ) return *p;
  atomicPre( p, sizeof( T ), false, pc ); atomicAcq( p, mo ); return *p;
}
template< class T > void astore( volatile T * p, T v, int mo, void * pc )
{
  if ( !cur || aborting ) { *p = v; return; }
  atomicPre( p, sizeof( T ), true, pc ); atomicWrote( p, sizeof( T ), pc ); atomicRel( p, mo, false ); *p = v;
}
template< class T, class F > T armw( volatile T * p, int mo, void * pc, F f )
{
  if ( !cur || aborting ) { T o = *p; *p = f( o ); return o; }
  atomicPre( p, sizeof( T ), true, pc ); atomicWrote( p, sizeof( T ), pc ); atomicAcq( p, mo ); atomicRel( p, mo, true );
  T o = *p; *p = f( o ); return o;
}
template< class T > int acas( volatile T * p, T * e, T v, int mo, int fmo, void * pc )
{
  if ( !cur || aborting ) { if ( *p == *e ) { *p = v; return 1; } *e = *p; return 0; }
  atomicPre( p, sizeof( T ), *p == *e, pc );
  if ( *p == *e ) { atomicWrote( p, sizeof( T ), pc ); atomicAcq( p, mo ); atomicRel( p, mo, true ); *p = v; return 1; }
  atomicAcq( p, fmo ); *e = *p; return 0;
}
}
extern "C"
{
#define AT( B, T ) \
  T __tsan_atomic##B##_load( const volatile T * p, int mo ) { return aload( p, mo, PC() ); } \
  void __tsan_atomic##B##_store( volatile T * p, T v, int mo ) { astore( p, v, mo, PC() ); } \
  T __tsan_atomic##B##_exchange( volatile T * p, T v, int mo ) { return armw( p, mo, PC(), [=]( T ) { return v; } ); } \
  T __tsan_atomic##B##_fetch_add( volatile T * p, T v, int mo ) { return armw( p, mo, PC(), [=]( T o ) { return T( o + v ); } ); } \
  T __tsan_atomic##B##_fetch_sub( volatile T * p, T v, int mo ) { return armw( p, mo, PC(), [=]( T o ) { return T( o - v ); } ); } \
  T __tsan_atomic##B##_fetch_and( volatile T * p, T v, int mo ) { return armw( p, mo, PC(), [=]( T o ) { return T( o & v ); } ); } \
  T __tsan_atomic##B##_fetch_or( volatile T * p, T v, int mo ) { return armw( p, mo, PC(), [=]( T o ) { return T( o | v ); } ); } \
  T __tsan_atomic##B##_fetch_xor( volatile T * p, T v, int mo ) { return armw( p, mo, PC(), [=]( T o ) { return T( o ^ v ); } ); } \
  T __tsan_atomic##B##_fetch_nand( volatile T * p, T v, int mo ) { return armw( p, mo, PC(), [=]( T o ) { return T( ~( o & v ) ); } ); } \
  int __tsan_atomic##B##_compare_exchange_strong( volatile T * p, T * e, T v, int mo, int fmo ) { return acas( p, e, v, mo, fmo, PC() ); } \
  int __tsan_atomic##B##_compare_exchange_weak( volatile T * p, T * e, T v, int mo, int fmo ) { return acas( p, e, v, mo, fmo, PC() ); } \
  T __tsan_atomic##B##_compare_exchange_val( volatile T * p, T e, T v, int mo, int fmo ) { acas( p, &e, v, mo, fmo, PC() ); return e; }
typedef unsigned char t8; typedef unsigned short t16; typedef unsigned int t32; typedef unsigned long t64;
AT( 8, t8 ) AT( 16, t16 ) AT( 32, t32 ) AT( 64, t64 )
void __tsan_atomic_thread_fence( int mo )
{
  if ( !cur || aborting ) return;
  syncPoint(); ++st.atomics;
  if ( acq( mo ) ) cur->vc.join( cur->acqPending );
  if ( rel( mo ) ) { cur->relFence.join( cur->vc ); releaseTick( cur ); }
}
void __tsan_atomic_signal_fence( int ) {}
}
