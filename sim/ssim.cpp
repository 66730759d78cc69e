// Synchronous simulator: runs a machine built from real library code through a seeded history of operations and faults
// and compares everything observable with the reference model.
#include "ssim.hpp"
#include "model.hpp"
#include <algorithm>
#include <csignal>
#include <exception>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <sanitizer/asan_interface.h>
#include <set>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

extern "C" void __sanitizer_set_death_callback( void ( * )( void ) ) __attribute__( ( weak ) );
extern "C" const char * __asan_default_options() { return "detect_leaks=0:detect_stack_use_after_return=0:intercept_strcmp=0:intercept_strlen=0:alloc_dealloc_mismatch=0:new_delete_type_mismatch=0"; }
// the sanitizer asks for the signal stack whenever an exception is thrown: answer without a system call
extern "C" int sigaltstack( const stack_t * n, stack_t * o ) noexcept
{
  static stack_t now; static bool known;
  if ( n == 0 && o && known ) { *o = now; return 0; }
  const int r = int( syscall( SYS_sigaltstack, n, o ) );
  if ( r == 0 && n == 0 && o ) { now = *o; known = true; } else known = false;
  return r;
}
extern "C" const char * __asan_get_report_description( void ) __attribute__( ( weak ) );

namespace ssim
{
typedef unsigned long long u64;
struct Rng
{
  u64 s; explicit Rng( u64 x ) : s( x * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull ) { next(); next(); }
  u64 next() { u64 z = ( s += 0x9E3779B97F4A7C15ull ); z = ( z ^ z >> 30 ) * 0xBF58476D1CE4E5B9ull; z = ( z ^ z >> 27 ) * 0x94D049BB133111EBull; return z ^ z >> 31; }
  int in( int n ) { return n <= 1 ? 0 : int( next() % unsigned( n ) ); }
  bool p( double x ) { return ( next() >> 11 ) * ( 1.0 / 9007199254740992.0 ) < x; }
};

struct Op { int id; char kind; int type, source, fail, m; };
typedef std::pair< int, int > Key;
struct Plan { std::string prop; int chart; std::vector< Op > ops; std::map< Key, unsigned > dec; std::string expect; u64 hash; int posts, reuse; Plan() : chart( 0 ), hash( 0 ), posts( 6 ), reuse( 0 ) {} };
struct Result { bool bad, faulty; std::string cls, text; u64 hash; Result() : bad( false ), faulty( false ), hash( 0 ) {} };

// how the seed's environment behaves
struct Profile { double thr, kind0, post, defer, snap, fwd, fail, sticky, clear, term, own, nest; double partial; int wA, wPost, wClear, wTerm, wInit, wDestroy, lo, hi; };

struct Totals
{
  u64 runs, seeds, ops, callbacks, exceptions, thrownBad, allocFailures, posts, defers, recreations, inconclusive, branches, handled, machineOps, snaps, historyEntries, faultyRuns, outcomes, snapsChecked, holey, nestedOps, twoMachines, reused;
  u64 maxBeliefs; std::map< std::string, u64 > thrownIn; std::map< std::string, u64 > why; std::map< int, u64 > charts; u64 unstable;
} tot;

// ---- state of the run in progress ---------------------------------------------------------------------------------
static int g_depth = 1, g_flying;
struct Inst { int type, logical; bool alive, managed, held; };
struct Alloc { std::size_t bytes, hash; int which, tag, owner; };
static std::vector< Rec > g_trace; static std::vector< Snap > g_snaps; static std::vector< Inst > g_inst;
static std::unordered_map< void *, Alloc > * g_live; static std::unordered_map< void *, std::size_t > * g_liveStd;
static unsigned g_nest; static int g_nestDepth, g_owner; static bool g_two, g_destroying;
static int g_logical, g_top, g_exc, g_posts, g_cbs, g_curOp, g_allocN, g_fail; static bool g_postActive, g_faulty, g_anyAlloc;
static Chart * g_chart; static IMachine * g_m; static const Plan * g_plan; static Plan * g_rec; static Profile g_prof; static Rng * g_rng; static Rng g_rng0( 1 );
static u64 g_hash, g_seed; static bool g_verbose; static unsigned g_refEvery = 16, g_askEvery = 4; static std::string g_ctx; static Model * g_model;
static void ( *g_onFatal )( const Result & );

static void mixHash( u64 x ) { g_hash ^= x + 0x9E3779B97F4A7C15ull + ( g_hash << 6 ) + ( g_hash >> 2 ); g_hash *= 0xff51afd7ed558ccdull; g_hash ^= g_hash >> 32; }

static std::vector< Chart * > & charts() { static std::vector< Chart * > v; return v; }
RegisterChart::RegisterChart( Chart * c ) { charts().push_back( c ); }

bool g_quiet;
static std::string evText( int e )
{
  if ( e == EXCEV ) return "exception event"; if ( e == STRANGE ) return "event of an unknown type"; if ( e == NOEV ) return "none"; if ( e == NA ) return "-";
  return fmt( "E%d#%d", e > 0 && e <= (int)g_inst.size() ? g_inst[ e - 1 ].type : -1, e );
}
std::string recText( const Rec & r )
{
  if ( g_quiet ) return std::string();
  const std::string s = sname( r.a );
  std::string x;
  switch ( r.k )
  {
    case R_CTOR: x = "entry of " + s; break;
    case R_EXIT: x = "exit of " + s; break;
    case R_DTOR: x = "destruction of " + s; break;
    case R_REACT: x = s + " reacting (" + fmt( "%d", r.b ) + ")"; break;
    case R_ACT: x = fmt( "transition action %d in ", r.b ) + s; break;
    case R_INACT: x = fmt( "in-state action %d in ", r.b ) + s; break;
    case R_UNC: x = "unconsumed_event"; break;
    case R_END: x = r.c ? ( r.c == BADALLOC ? std::string( "  leaves with bad_alloc" ) : fmt( "  throws %d", r.c ) ) : r.a == R_REACT ? fmt( "  option %d", r.b ) : std::string( "  returns" ); break;
    case R_POST: x = "  post " + evText( r.ev ); break;
    case R_POSTEND: x = r.a ? "  posted" : "  posting failed"; break;
    case R_COPY: x = "copy of " + evText( r.a ) + " as " + evText( r.ev ); break;
    case R_AFAIL: x = "allocation failure " + ( r.a < MAXS ? "for " + sname( r.a ) : r.a >= T_EVENT ? fmt( "for an event E%d", r.a - T_EVENT ) : r.a == T_INTERNAL ? std::string( "for internals" ) : std::string() ); break;
    case R_CLEAR: x = "  clears history"; break;
    case R_SNAP: x = "  looks at the active states"; break;
    default: x = fmt( "record %d", r.k );
  }
  if ( r.k == R_REACT || r.k == R_ACT || r.k == R_INACT || r.k == R_UNC ) { if ( r.ev ) x += " to " + evText( r.ev ); }
  if ( r.k <= R_UNC && r.trig != NA && r.trig != r.ev && ( r.ev || r.trig ) ) x += " [triggering: " + evText( r.trig ) + "]";
  return x;
}

[[noreturn]] static void fatal( const std::string & cls, const std::string & text )
{
  static bool once = false; if ( once ) _exit( 1 ); once = true; g_quiet = false;
  g_depth = 1000;
  Result r; r.bad = true; r.faulty = g_faulty; r.cls = cls; r.text = text; r.hash = g_hash;
  if ( !g_ctx.empty() ) r.text += " (" + g_ctx + ")";
  if ( g_model && cls.find( '+' ) == std::string::npos ) { std::string f; if ( g_faulty ) f += 'x'; if ( g_chart && g_chart->desc.relax ) f += 'r'; if ( g_two ) f += 'n'; r.cls += "+" + f; }
  g_onFatal( r );
  _exit( 1 );
}
void violation( const char * cls, const char * text ) { Depth d; fatal( cls, text ); }
bool wantIds() { return g_plan->prop == "C20"; }
unsigned idSalt() { return unsigned( g_curOp ); }
static void onDeath()
{
  const char * t = __asan_get_report_description ? __asan_get_report_description() : 0;
  fatal( "crash", std::string( "memory error: " ) + ( t ? t : "?" ) );
}
static void limitTime( int s ) // processor time, so that a busy computer changes nothing
{
  itimerval t; std::memset( &t, 0, sizeof t ); t.it_value.tv_sec = s; setitimer( ITIMER_PROF, &t, 0 ); alarm( s * 10 );
}
static void onSignal( int s ) { if ( s == SIGPROF ) s = SIGALRM; fatal( s == SIGALRM ? "hang" : "crash", s == SIGALRM ? "an operation did not end" : fmt( "the program received signal %d", s ) ); }

Depth::Depth() { ++g_depth; }
Depth::~Depth() { --g_depth; }
Undepth::Undepth() : saved( g_depth ) { g_depth = 0; }
Undepth::~Undepth() { g_depth = saved; }

static void logRec( int k, int a, int b, int c, int ev, int trig, const void * evp = 0, const void * trigp = 0 )
{
  Depth d;
  Rec r = { k, a, b, c, ev, trig, evp, trigp }; g_trace.push_back( r );
  mixHash( ( u64( k ) << 56 ) ^ ( u64( a & 0xffff ) << 40 ) ^ ( u64( b & 0xff ) << 32 ) ^ u64( c & 0xffff ) << 16 ^ ( ev & 0xffff ) ); mixHash( u64( trig ) );
  if ( g_verbose ) std::printf( "      %s\n", recText( r ).c_str() );
  if ( g_trace.size() > 20000 && k != R_POST && k != R_POSTEND ) fatal( "hang", "an operation goes on without end" );
}

static bool endsRegion( int st ); // terminating this state leaves its region empty while other regions stay
// ---- decisions -----------------------------------------------------------------------------------------------------
static unsigned invent( int kind, int a, int b, int ev, int nopt, bool canPost, bool canThrow )
{
  Rng & r = *g_rng; const Profile & p = g_prof; unsigned code = 0;
  const bool handling = ev == EXCEV;
  if ( nopt > 0 )
  {
    const std::vector< Opt > & o = g_chart->desc.s[ a ].r[ b ].opts; std::vector< double > w; double sum = 0;
    for ( std::size_t i = 0; i < o.size(); ++i )
    {
      double x = 1;
      switch ( o[ i ].kind ) { case O_TERM: x = g_prof.partial > 0 && endsRegion( a ) ? 20 * p.partial : p.term; break; case O_FWD: x = p.fwd; break; case O_DIS: x = handling ? 1 : 0.7; break; case O_DEF: x = p.defer; break; case O_CLEAR: x = p.clear; break; default: x = handling ? 2 : 1.5; }
      w.push_back( x ); sum += x;
    }
    double x = ( r.next() >> 11 ) * ( 1.0 / 9007199254740992.0 ) * sum; std::size_t i = 0;
    while ( i + 1 < w.size() && x >= w[ i ] ) x -= w[ i++ ];
    code |= unsigned( i );
  }
  const double pt = kind == R_UNC ? p.thr * 1.5 : handling ? p.thr * 2 : p.thr;
  if ( canThrow && pt > 0 && r.p( pt ) ) { code |= ( r.p( 0.5 ) ? 1u : 2u ) << D_THROW_SHIFT; code |= ( r.p( p.kind0 ) ? 0u : unsigned( 1 + r.in( 2 ) ) ) << D_KIND_SHIFT; }
  if ( canPost && r.p( p.post ) )
  {
    int n = r.p( 0.7 ) ? 1 : 1 + r.in( 3 ); code |= unsigned( n ) << D_NPOST_SHIFT;
    for ( int i = 0; i < n; ++i ) { unsigned src = r.p( 0.5 ) ? 0 : r.p( p.own ) ? 2 : r.p( 0.6 ) ? 1 : 3; code |= ( unsigned( r.in( NEV ) ) | src << 2 ) << ( D_POST_SHIFT + 4 * i ); }
  }
  if ( ( kind == R_REACT || kind == R_UNC || kind == R_INACT ) && r.p( p.snap ) ) code |= D_SNAP;
  return code;
}

unsigned cbBegin( int kind, int a, int b, EvInfo ev, EvInfo trig, int nopt, bool canPost, bool canThrow )
{
  ++tot.callbacks;
  logRec( kind, a, b, 0, ev.inst, trig.inst, ev.p, trig.p );
  const int k = g_cbs++; unsigned code = 0; const Key key( g_curOp, k ), nkey( g_curOp, -1 - k ); g_nest = 0;
  if ( g_cbs > 1500 ) return 0;
  if ( g_rng )
  {
    code = invent( kind, a, b, ev.inst, nopt, canPost, canThrow ); if ( g_rec && code ) g_rec->dec[ key ] = code;
    if ( g_prof.nest > 0 && g_nestDepth == 0 && g_rng->p( g_prof.nest ) )
    {
      const int w = g_rng->in( 20 ); g_nest = 1 | unsigned( w < 11 ? 0 : w < 15 ? 1 : w < 17 ? 2 : w < 19 ? 3 : 4 ) << 1 | unsigned( g_rng->in( NEV ) ) << 4 | ( g_rng->p( 0.5 ) ? 4u : g_rng->p( 0.5 ) ? 0u : g_rng->p( 0.5 ) ? 1u : 3u ) << 6;
      if ( g_rec ) g_rec->dec[ nkey ] = g_nest;
    }
  }
  else
  {
    std::map< Key, unsigned >::const_iterator i = g_plan->dec.find( key );
    if ( i != g_plan->dec.end() ) code = i->second;
    i = g_plan->dec.find( nkey ); if ( i != g_plan->dec.end() && g_nestDepth == 0 ) g_nest = i->second;
    if ( !canThrow ) code &= ~( 3u << D_THROW_SHIFT );
    if ( kind != R_REACT && kind != R_UNC && kind != R_INACT ) code &= ~unsigned( D_SNAP );
  }
  return code;
}
unsigned takeNested() { const unsigned n = g_nest; g_nest = 0; return n; }
void cbThrow( int kind, int a, unsigned code )
{
  static const char * names[] = { "", "state constructor", "exit function", "", "reaction", "transition action", "in-state action", "unconsumed_event" };
  ++tot.exceptions; ++tot.thrownIn[ names[ kind ] ]; g_faulty = true;
  const int k = ( ( code >> D_KIND_SHIFT ) & 3 ) % 3; SimExc x; x.kind = k; x.id = ( ++g_exc ) * 4 + k + 1;
  logRec( R_END, kind, 0, x.id, 0, NA ); g_flying = x.id;
  throw x;
}
void flying() // called while a state reacts to the event that stands for an exception
{
  int id = -99; if ( !std::current_exception() ) fatal( "flying", "a reaction to the exception event runs while no exception is being handled" );
  try { throw; } catch ( const SimExc & x ) { id = x.id; } catch ( const std::bad_alloc & ) { id = BADALLOC; } catch ( ... ) {}
  if ( id != g_flying ) fatal( "flying", "a reaction to the exception event sees another exception than the one that was thrown" );
}
void cbBadAlloc( int kind, int ) { ++tot.thrownBad; logRec( R_END, kind, 0, BADALLOC, 0, NA ); }
int cbEnd( int kind, int a, unsigned code, int nopt )
{
  const int o = nopt > 0 ? int( code & D_OPT ) % nopt : 0;
  logRec( R_END, kind, o, 0, 0, NA );
  return o;
}
unsigned logDtor( int a, EvInfo trig )
{
  logRec( R_DTOR, a, 0, 0, 0, trig.inst, 0, trig.p );
  const int k = g_cbs++; const Key key( g_curOp, k );
  if ( g_cbs > 1500 || g_fail != 0 || g_destroying ) return 0; // a destructor cannot report a failure; the machine has to exist
  unsigned code = 0;
  if ( g_rng ) { if ( g_rng->p( g_prof.post * 0.4 ) ) { code = 1u << D_NPOST_SHIFT | ( unsigned( g_rng->in( NEV ) ) | unsigned( g_rng->in( 4 ) ) << 2 ) << D_POST_SHIFT; if ( g_rec ) g_rec->dec[ key ] = code; } }
  else { std::map< Key, unsigned >::const_iterator i = g_plan->dec.find( key ); if ( i != g_plan->dec.end() ) code = i->second & ( 3u << D_NPOST_SHIFT | 0xfffu << D_POST_SHIFT ); }
  return code;
}
void logClear( int idx ) { Depth d; logRec( R_CLEAR, idx, 0, 0, 0, NA ); }
void snapNow( bool refs )
{
  ++tot.snaps; Snap s; g_m->snapshot( s, refs, true ); g_snaps.push_back( s );
  logRec( R_SNAP, int( g_snaps.size() ) - 1, 0, 0, 0, NA );
}
bool postBegin( int inst, bool man )
{
  g_postActive = false;
  if ( g_posts >= g_plan->posts ) return false;
  ++g_posts; ++tot.posts; g_postActive = true;
  logRec( R_POST, man, g_inst[ inst - 1 ].type, 0, inst, NA );
  return true;
}
void postEnd( bool ok ) { if ( g_postActive ) logRec( R_POSTEND, ok, 0, 0, 0, NA ); g_postActive = false; }
int newLogical() { return ++g_logical; }
bool managed( int i ) { return g_inst[ i - 1 ].managed; }
void setManaged( int i ) { g_inst[ i - 1 ].managed = true; }
void setHeld( int i ) { g_inst[ i - 1 ].held = true; }
void topEvent( int i ) { g_top = i; }
int evType( int i ) { return g_inst[ i - 1 ].type; }

// ---- events --------------------------------------------------------------------------------------------------------
static void countAlloc( int tag );
static unsigned sumOf( const EvBody & e ) { return unsigned( e.inst * 2654435761u ) ^ unsigned( e.type * 40503u ) ^ unsigned( e.logical * 97u ); }
EvBody::EvBody( int t, int l ) : magic( LIVE ), type( t ), logical( l )
{ Depth d; Inst i = { t, l, true, false, false }; g_inst.push_back( i ); inst = int( g_inst.size() ); sum = sumOf( *this ); }
EvBody::EvBody( const EvBody & o ) : magic( LIVE ), type( o.type ), logical( o.logical )
{
  const bool user = g_depth != 0; // a copy made by user code
  if ( !user ) countAlloc( T_EVENT + type ); // the copy constructor of an event fails
  Depth d; o.check(); Inst i = { type, logical, true, !user, false }; g_inst.push_back( i ); inst = int( g_inst.size() ); sum = sumOf( *this );
  if ( !user ) logRec( R_COPY, o.inst, 0, 0, inst, NA );
}
EvBody & EvBody::operator=( const EvBody & o )
{
  Depth d; check(); o.check(); if ( o.type != type ) fatal( "event", "an event was assigned to one of another type" );
  logical = o.logical; g_inst[ inst - 1 ].logical = logical; sum = sumOf( *this ); return *this;
}
EvBody::~EvBody() { Depth d; check(); g_inst[ inst - 1 ].alive = false; magic = DEAD; }
int EvBody::check() const
{
  if ( magic != LIVE || inst < 1 || inst > (int)g_inst.size() || !g_inst[ inst - 1 ].alive ) fatal( "event", "an event object was used that is not alive" );
  if ( sum != sumOf( *this ) || g_inst[ inst - 1 ].type != type || g_inst[ inst - 1 ].logical != logical ) fatal( "event", "the content of an event changed" );
  return inst;
}

// ---- allocation ----------------------------------------------------------------------------------------------------
// memory given back by the library is handed out again, last released first, in half of the runs; in the others it stays unused
static std::map< std::size_t, std::vector< void * > > g_pool; static bool g_reuse;
static void * poolTake( std::size_t bytes )
{
  const std::size_t n = ( bytes + 15 ) & ~std::size_t( 15 );
  if ( !g_reuse ) return std::malloc( bytes ? bytes : 1 );
  std::vector< void * > & v = g_pool[ n ]; void * p;
  if ( v.empty() ) p = std::malloc( n ? n : 16 );
  else { p = v.back(); v.pop_back(); ++tot.reused; __asan_unpoison_memory_region( p, n ); }
  __asan_poison_memory_region( (char *)p + bytes, n - bytes ); return p;
}
static void poolGive( void * p, std::size_t bytes )
{
  if ( !g_reuse ) { std::free( p ); return; }
  const std::size_t n = ( bytes + 15 ) & ~std::size_t( 15 ); __asan_unpoison_memory_region( p, n ); std::memset( p, 0xDD, n ); __asan_poison_memory_region( p, n ); g_pool[ n ].push_back( p );
}
static void poolDrop()
{
  for ( std::map< std::size_t, std::vector< void * > >::iterator i = g_pool.begin(); i != g_pool.end(); ++i )
  { for ( std::size_t k = 0; k < i->second.size(); ++k ) { __asan_unpoison_memory_region( i->second[ k ], i->first ); std::free( i->second[ k ] ); } i->second.clear(); }
}
static void countAlloc( int tag )
{
  if ( g_depth != 0 || g_fail == 0 ) { if ( g_depth == 0 ) ++g_allocN; return; }
  ++g_allocN;
  if ( g_fail > 0 ? g_allocN == g_fail : g_allocN >= -g_fail ) { ++tot.allocFailures; g_faulty = true; g_flying = BADALLOC; logRec( R_AFAIL, tag, 0, 0, 0, NA ); throw std::bad_alloc(); }
}
void * simAlloc( std::size_t bytes, int tag, int which, std::size_t hash )
{
  countAlloc( tag );
  Depth d;
  if ( which != ( tag >= T_EVENT ? 2 : 1 ) ) fatal( "mem", "something was allocated through an allocator that was given for something else" );
  void * p = poolTake( bytes ); Alloc a = { bytes, hash, which, tag, g_owner }; ( *g_live )[ p ] = a; return p;
}
void simFree( void * p, std::size_t bytes, int which, std::size_t hash )
{
  Depth d;
  std::unordered_map< void *, Alloc >::iterator i = g_live->find( p );
  if ( i == g_live->end() ) fatal( "mem", "memory was released that was not allocated, or was released twice" );
  if ( i->second.which != which || i->second.hash != hash ) fatal( "mem", "memory was released to another allocator than it came from" );
  if ( i->second.bytes != bytes ) fatal( "mem", "memory was released with another size than it was allocated with" );
  g_live->erase( i ); poolGive( p, bytes );
}
// memory of the simulator itself: plain, not watched by the sanitizer
static char * g_own, * g_ownEnd, * g_ownNext; static void * g_ownFree[ 65 ];
static void * ownNew( std::size_t n )
{
  if ( g_own == 0 )
  {
    const std::size_t z = std::size_t( 1 ) << 33; void * const q = mmap( 0, z, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
    if ( q == MAP_FAILED ) { g_own = g_ownEnd = g_ownNext = (char *)1; } else { g_own = g_ownNext = (char *)q; g_ownEnd = g_own + z; }
  }
  const std::size_t c = ( n + 15 ) >> 4;
  if ( c > 64 ) return 0;
  void * p = g_ownFree[ c ];
  if ( p ) { std::memcpy( &g_ownFree[ c ], p, sizeof( void * ) ); return p; }
  const std::size_t b = ( c ? c : 1 ) * 16 + 16; if ( std::size_t( g_ownEnd - g_ownNext ) < b ) return 0;
  *(std::size_t *)g_ownNext = c; p = g_ownNext + 16; g_ownNext += b; return p;
}
static bool isOwn( void * p ) { return (char *)p >= g_own && (char *)p < g_ownEnd; }
static void ownDelete( void * p ) { const std::size_t c = *(std::size_t *)( (char *)p - 16 ); std::memcpy( p, &g_ownFree[ c ], sizeof( void * ) ); g_ownFree[ c ] = p; }
static bool g_inSet;
static bool g_track; // global operator new calls made by library code are the library's
static void * stdNew( std::size_t n )
{
  if ( g_track && g_depth == 0 )
  {
    if ( g_chart->desc.stdalloc ) { countAlloc( T_UNKNOWN ); Depth d; g_inSet = true; void * p = poolTake( n ); ( *g_liveStd )[ p ] = n; g_inSet = false; return p; }
    g_track = false; // fatal() itself allocates
    fatal( "mem", "memory was taken from the global heap although an allocator was given" );
  }
  if ( g_track && g_depth > 0 ) { void * const p = ownNew( n ); if ( p ) return p; }
  void * p = std::malloc( n ? n : 1 ); if ( p == 0 ) throw std::bad_alloc(); return p;
}
static void stdDelete( void * p )
{
  if ( isOwn( p ) && p ) { ownDelete( p ); return; }
  if ( p && g_track && !g_inSet )
  {
    Depth d; std::unordered_map< void *, std::size_t >::iterator i = g_liveStd->find( p );
    if ( i != g_liveStd->end() ) { const std::size_t n = i->second; g_inSet = true; g_liveStd->erase( i ); poolGive( p, n ); g_inSet = false; return; }
  }
  std::free( p );
}
} // namespace ssim

void * operator new( std::size_t n ) { return ssim::stdNew( n ); }
void * operator new[]( std::size_t n ) { return ssim::stdNew( n ); }
void operator delete( void * p ) noexcept { ssim::stdDelete( p ); }
void operator delete[]( void * p ) noexcept { ssim::stdDelete( p ); }
void operator delete( void * p, std::size_t ) noexcept { ssim::stdDelete( p ); }
void operator delete[]( void * p, std::size_t ) noexcept { ssim::stdDelete( p ); }

namespace boost
{
void assertion_failed( char const * e, char const *, char const *, long ) { ssim::fatal( "assert", std::string( "assertion failed: " ) + e ); }
void assertion_failed_msg( char const * e, char const * m, char const *, char const *, long ) { ssim::fatal( "assert", std::string( "assertion failed: " ) + e + " " + m ); }
}

namespace ssim
{
// ---- model bookkeeping ---------------------------------------------------------------------------------------------
static std::string serial( const MState & s )
{
  std::string o; o.append( (const char *)s.child, sizeof s.child ); o.append( (const char *)s.alive, sizeof s.alive ); o.append( (const char *)s.deferred, sizeof s.deferred );
  struct Put { std::string & o; void operator()( int x ) { o.append( (const char *)&x, sizeof x ); } } put = { o };
  put( s.root ); put( s.U ); put( s.common ); put( s.full ); put( s.trig );
  put( int( s.q.size() ) ); for ( std::size_t i = 0; i < s.q.size(); ++i ) put( s.q[ i ].inst );
  put( int( s.dq.size() ) ); for ( std::size_t i = 0; i < s.dq.size(); ++i ) put( s.dq[ i ].inst );
  put( int( s.sh.size() ) ); for ( std::map< int, int >::const_iterator i = s.sh.begin(); i != s.sh.end(); ++i ) { put( i->first ); put( i->second ); }
  for ( std::map< int, int >::const_iterator i = s.dp.begin(); i != s.dp.end(); ++i ) { put( i->first ); put( i->second ); }
  return o;
}
static u64 strHash( const std::string & s ) { u64 h = 1469598103934665603ull; for ( std::size_t i = 0; i < s.size(); ++i ) { h ^= (unsigned char)s[ i ]; h *= 1099511628211ull; } return h; }

struct Violated { std::string cls, text; };
static std::unordered_set< u64 > g_states;

static Op nestedOp( unsigned code, int curOp, int cb, int m )
{
  static const char kinds[] = "AAPTIDDDD";
  Op o = { 2000000 + curOp * 1600 + cb, kinds[ ( code >> 1 & 7 ) == 0 ? 0 : ( code >> 1 & 7 ) + 1 ], int( code >> 4 & 3 ), int( code >> 6 & 7 ), 0, m };
  return o;
}
static int topOp( int id ) { return id >= 2000000 ? ( id - 2000000 ) / 1600 : id; } // the operation of the history a nested operation belongs to

// states whose regions are not all occupied are rare but matter: some seeds look for them
static bool ends( const MState & z, int st )
{
  for ( const ChartDesc & d = g_chart->desc; st != -1 && z.alive[ st ]; st = d.s[ st ].parent )
  {
    const int p = d.s[ st ].parent; if ( p == -1 || !z.alive[ p ] ) return false;
    int n = 0; for ( int g = 0; g < d.s[ p ].nreg; ++g ) if ( z.child[ p ][ g ] != -1 ) ++n;
    if ( n > 1 ) return true;
  }
  return false;
}
static bool holey( const MState & z )
{
  for ( int i = 0; i < g_chart->desc.n; ++i ) if ( z.alive[ i ] && g_chart->desc.s[ i ].nreg > 1 ) for ( int g = 0; g < g_chart->desc.s[ i ].nreg; ++g ) if ( z.child[ i ][ g ] == -1 ) return true;
  return false;
}
static int terminatingEvent( const MState & z ) // an event some active innermost state can be terminated with, leaving a region empty; -1 none
{
  const ChartDesc & d = g_chart->desc; const int f = g_rng->in( d.n );
  for ( int k = 0; k < d.n; ++k )
  {
    const int i = ( f + k ) % d.n; if ( !z.alive[ i ] || !ends( z, i ) ) continue;
    for ( std::size_t r = 0; r < d.s[ i ].r.size(); ++r )
    {
      const Reac & x = d.s[ i ].r[ r ]; if ( x.ev >= NEV ) continue;
      bool t = x.kind == K_TERM; for ( std::size_t o = 0; o < x.opts.size(); ++o ) if ( x.opts[ o ].kind == O_TERM ) t = true;
      if ( t ) return x.ev;
    }
  }
  return -1;
}
class Runner; static Runner * g_runner; static const void * g_nestEv;

class Runner
{
  public:
    struct Side { std::vector< MState > beliefs; IMachine * h; bool fresh, used, before[ 3 ]; Side() : beliefs( 1, MState() ), h( 0 ), fresh( true ), used( false ) { for ( int i = 0; i < 3; ++i ) before[ i ] = false; } };
    const Plan & p; Side side[ 2 ]; bool unsure; Model m;
    Runner( const Plan & pp ) : p( pp ), unsure( false ) { m.d = &g_chart->desc; g_model = &m; g_runner = this; for ( int i = 0; i < 4; ++i ) m.before[ i ] = false; }
    void create( Side & z ) { const bool t = g_track; g_track = false; z.h = g_chart->create(); g_track = t; }
    static std::string opText( const Op & o, char k )
    {
      switch ( k )
      {
        case 'E': return fmt( "process event E%d (%s)", o.type, o.source == 0 ? "local object" : o.source == 3 ? "object kept by the client" : "heap object" );
        case 'I': return "initiate"; case 'T': return "terminate"; case 'D': return "destroy the machine, make a new one";
        case 'P': return o.source > 7 ? fmt( "post event E%d from outside, %d times", o.type, o.source >> 3 ) : fmt( "post event E%d from outside", o.type ); case 'C': return fmt( "clear history %d", o.type ); default: return "?";
      }
    }
    // user code of one machine operates the other one
    void nested( unsigned code, const void * ev, int inst )
    {
      Op o = nestedOp( code, g_curOp, g_cbs - 1, 1 - g_owner );
      if ( o.source == 4 && ( ev == 0 || inst <= 0 ) ) o.source = 1;
      if ( o.source == 4 ) o.type = g_inst[ inst - 1 ].type;
      std::vector< Rec > tr; std::vector< Snap > sn; tr.swap( g_trace ); sn.swap( g_snaps );
      const int top = g_top, posts = g_posts, cbs = g_cbs, allocN = g_allocN, curOp = g_curOp, fail = g_fail, depth = g_depth, owner = g_owner, fly = g_flying; const bool pa = g_postActive; const std::string ctx = g_ctx; IMachine * const mach = g_m;
      g_nestDepth = 1; ++tot.nestedOps; g_depth = 1; g_nestEv = ev;
      if ( g_verbose ) std::printf( "      ---- inside this callback, machine %d:\n", o.m );
      try { step( o, false ); }
      catch ( const Violated & v ) { fatal( v.cls.find( '+' ) == std::string::npos ? v.cls + "+" + m.flags() : v.cls, v.text + " (this machine was used " + ctx + " of another one)" ); }
      if ( g_verbose ) std::printf( "      ---- back in machine %d\n", owner );
      g_nestDepth = 0; tr.swap( g_trace ); sn.swap( g_snaps ); g_top = top; g_posts = posts; g_cbs = cbs; g_allocN = allocN; g_curOp = curOp; g_fail = fail; g_flying = fly; g_depth = depth; g_owner = owner; g_postActive = pa; g_ctx = ctx; g_m = mach; g_nest = 0;
    }
    void step( const Op & o, bool last )
    {
      Side & z = side[ o.m ]; IMachine * & h = z.h; std::vector< MState > & beliefs = z.beliefs;
      if ( h == 0 ) { g_curOp = o.id; create( z ); }
      g_owner = o.m; g_m = h; const void * const ev = g_nestEv; const bool nest = g_nestDepth != 0;
      char k = o.kind; if ( k == 'A' ) k = h->terminatedNow() && ( o.id * 7 + o.type ) % 8 ? 'I' : 'E';
      if ( k == 'C' && g_chart->desc.clears.empty() ) return;
      z.used = true; if ( side[ 1 - o.m ].used ) g_two = true;
      g_trace.clear(); g_snaps.clear(); g_top = 0; g_posts = g_cbs = g_allocN = 0; g_curOp = o.id; g_fail = o.fail; g_postActive = false;
      g_ctx = "in operation: " + opText( o, k );
      if ( g_verbose ) std::printf( "   %d: %s%s\n", o.id, opText( o, k ).c_str(), o.fail ? fmt( " with allocation %d failing", o.fail ).c_str() : "" );
      mixHash( u64( k ) << 32 | u64( o.m ) << 41 | unsigned( o.type << 8 | o.source ) ); ++tot.ops;
      // the real thing
      int out = 0; const int src = ( o.source & 7 ) == 2 ? 1 : o.source & 7;
      try
      {
        switch ( k )
        {
          case 'E': h->process( o.type, src, ev ); break;
          case 'I': h->initiate(); break;
          case 'T': h->terminate(); break;
          case 'P': for ( int i = 0; i < std::max( 1, o.source >> 3 ); ++i ) { g_posts = 0; h->post( o.type, src, ev ); } break;
          case 'C': h->clear( o.type % int( g_chart->desc.clears.size() ) ); break;
          case 'D': g_destroying = true; delete h; h = 0; g_m = 0; g_destroying = false; break;
        }
      }
      catch ( const SimExc & x ) { out = x.id; }
      catch ( const std::bad_alloc & ) { out = BADALLOC; }
      catch ( const std::exception & x ) { throw Violated{ "outcome", std::string( "the caller received a foreign exception: " ) + x.what() }; }
      catch ( ... ) { throw Violated{ "outcome", "the caller received a foreign exception" }; }
      g_depth = 1; g_fail = 0; mixHash( u64( out ) ); if ( out ) ++tot.outcomes;
      if ( g_verbose && out ) std::printf( "      -> %s\n", out == BADALLOC ? "bad_alloc" : fmt( "exception %d", out ).c_str() );
      if ( k != 'E' && k != 'P' && k != 'C' ) ++tot.machineOps;
      Snap after; if ( h ) { const std::size_t y = o.id + g_trace.size(); h->snapshot( after, y % g_refEvery == 0, y % g_askEvery == 0 ); }
      // what it has to be: every state the model can be in after each event of this operation
      std::vector< MState > next; std::unordered_set< std::string > seen, done; bool have = false; Mismatch worst = Mismatch(); std::string worstFlags; std::string why; int branches = 0; bool dead = false; std::size_t deadPos = 0; bool sawHandled = false, sawHistory = false;
      const u64 branches0 = tot.branches; prepareLive( o.m );
      struct Item { MState s; std::size_t pos; bool first, exc, han, his, que, trm, clr, alc; int mop; };
      for ( int pass = 0; pass < 2 && !have && !unsure; ++pass ) // the second time to describe what is wrong
      {
      g_quiet = pass == 0; seen.clear(); done.clear(); next.clear(); dead = false; why.clear(); branches = 0; tot.branches = branches0;
      std::vector< Item > todo;
      m.begin( &g_trace, &g_snaps ); for ( int i = 0; i < 3; ++i ) m.before[ i ] = z.before[ i ]; m.before[ 3 ] = side[ 1 - o.m ].used;
      for ( std::size_t i = 0; i < beliefs.size(); ++i ) { Item x = Item(); x.s = beliefs[ i ]; x.first = true; todo.push_back( x ); }
      while ( !todo.empty() && !unsure )
      {
        const Item it = todo.back(); todo.pop_back();
        m.choices.clear(); m.widths.clear();
        do
        {
          ++branches; ++tot.branches;
          if ( branches > 6000 + int( g_trace.size() ) * 3 ) { why = "too many possible search orders"; unsure = true; break; }
          m.resume(); m.s = it.s; m.pos = it.pos; m.excSeen = it.exc; m.handledSeen = it.han; m.histEntry = it.his; m.fromQueue = it.que; m.inTerm = it.trm; m.clearSeen = it.clr; m.allocSeen = it.alc; m.machineOp = it.mop;
          try
          {
            int want = 0; bool more = false;
            try
            {
              if ( !it.first ) m.queueUnit();
              else switch ( k )
              {
                case 'E': { MEv e = { g_top, g_inst[ g_top - 1 ].type, g_inst[ g_top - 1 ].managed }; m.opProcess( e ); break; }
                case 'I': m.opInitiate(); break;
                case 'T': m.opTerminate(); break;
                case 'P': for ( int i = 0; i < std::max( 1, o.source >> 3 ); ++i ) m.opPost(); break;
                case 'C': { const Clear & c = g_chart->desc.clears[ o.type % g_chart->desc.clears.size() ]; m.clear( c.kind, c.s, c.r ); break; }
                case 'D': m.opDestroy(); break;
              }
              more = ( k == 'E' || k == 'I' ) && !m.s.q.empty();
            }
            catch ( const MExc & x ) { want = x.id; }
            if ( more )
            {
              std::string key = serial( m.s ); key.append( (const char *)&m.pos, sizeof m.pos );
              if ( seen.insert( key ).second )
              { Item x = { m.s, m.pos, false, m.excSeen, m.handledSeen, m.histEntry, m.fromQueue, m.inTerm, m.clearSeen, m.allocSeen, m.machineOp }; todo.push_back( x ); }
              continue;
            }
            if ( m.pos != g_trace.size() ) m.unexpected( 0, 0, 0 );
            if ( want != out ) m.fail( "outcome", fmt( "the caller received %s, expected %s", oName( out ).c_str(), oName( want ).c_str() ) );
            if ( h )
            {
              if ( !after.trigNull ) m.fail( "trig", "a triggering event is reported although nothing is being processed" );
              m.checkSnap( after );
            }
            else { m.s = MState(); }
            checkLive( o.m, nest );
            have = true; sawHandled = m.handledSeen; sawHistory = m.histEntry;
            if ( done.insert( serial( m.s ) ).second ) next.push_back( m.s );
            if ( next.size() > 48 ) { why = "too many possible states"; unsure = true; break; }
          }
          catch ( const Mismatch & x ) { if ( !g_quiet && ( worst.cls.empty() || x.pos > worst.pos ) ) { worst = x; worstFlags = m.flags(); } }
          catch ( const Inconclusive & x ) { why = x.why; if ( !x.here ) unsure = true; else if ( !dead || x.pos > deadPos ) { dead = true; deadPos = x.pos; } }
        }
        while ( !unsure && m.nextChoice() );
      }
      g_quiet = false;
      }
      if ( !have && dead && ( worst.cls.empty() || worst.pos <= deadPos ) ) unsure = true;
      if ( unsure ) { ++tot.inconclusive; ++tot.why[ why ]; if ( g_verbose ) std::printf( "      inconclusive: %s\n", why.c_str() ); return; }
      if ( !have ) throw Violated{ worst.cls + "+" + worstFlags, worst.text };
      beliefs.swap( next );
      if ( beliefs.size() > tot.maxBeliefs ) tot.maxBeliefs = beliefs.size();
      if ( !beliefs[ 0 ].dq.empty() ) ++tot.defers;
      if ( sawHandled ) ++tot.handled; if ( sawHistory ) ++tot.historyEntries;
      if ( g_states.size() < 3000000 ) { MState z = beliefs[ 0 ]; for ( std::size_t i = 0; i < z.q.size(); ++i ) z.q[ i ].inst = z.q[ i ].type; for ( std::size_t i = 0; i < z.dq.size(); ++i ) z.dq[ i ].inst = z.dq[ i ].type; g_states.insert( strHash( serial( z ) ) * 31 + g_chart->desc.id ); }
      if ( out && h && after.terminated && k != 'P' && k != 'C' ) z.before[ 0 ] = true;
      if ( sawHandled ) z.before[ 1 ] = true;
      if ( k == 'T' || ( k == 'I' && !z.fresh ) ) z.before[ 2 ] = true;
      z.fresh = false;
      if ( k == 'D' ) { ++tot.recreations; z.fresh = true; for ( int i = 0; i < 3; ++i ) z.before[ i ] = false; }
    }
    static std::string oName( int x ) { return x == 0 ? "no exception" : x == BADALLOC ? "bad_alloc" : fmt( "exception %d", x ); }
    std::vector< int > aliveNow; std::unordered_set< int > other; // events alive after the operation; events the other machine keeps
    void prepareLive( int me )
    {
      aliveNow.clear(); other.clear();
      for ( std::size_t i = 0; i < g_inst.size(); ++i ) if ( g_inst[ i ].alive ) aliveNow.push_back( int( i ) + 1 );
      const std::vector< MState > & ob = side[ 1 - me ].beliefs;
      for ( std::size_t k = 0; k < ob.size(); ++k )
      {
        for ( std::size_t i = 0; i < ob[ k ].q.size(); ++i ) other.insert( ob[ k ].q[ i ].inst );
        for ( std::size_t i = 0; i < ob[ k ].dq.size(); ++i ) other.insert( ob[ k ].dq[ i ].inst );
      }
    }
    void checkLive( int me, bool nest ) // event objects and state objects alive between operations
    {
      std::unordered_set< int > want;
      for ( std::size_t i = 0; i < m.s.q.size(); ++i ) want.insert( m.s.q[ i ].inst );
      for ( std::size_t i = 0; i < m.s.dq.size(); ++i ) want.insert( m.s.dq[ i ].inst );
      for ( std::size_t k = 0; k < aliveNow.size(); ++k )
      {
        const int i = aliveNow[ k ] - 1;
        if ( g_inst[ i ].held || want.count( i + 1 ) || nest || other.count( i + 1 ) ) continue; // what the other machine does at this moment is judged later
        m.fail( "evleak", "event " + evText( i + 1 ) + " is still kept although it is neither posted nor deferred" );
      }
      for ( std::unordered_set< int >::const_iterator i = want.begin(); i != want.end(); ++i ) if ( !g_inst[ *i - 1 ].alive ) m.fail( "evlost", "event " + evText( *i ) + " was destroyed although it is posted or deferred" );
      if ( g_chart->desc.stdalloc ) return;
      int n[ MAXS ] = { 0 };
      for ( std::unordered_map< void *, Alloc >::const_iterator i = g_live->begin(); i != g_live->end(); ++i ) if ( i->second.tag < MAXS && i->second.owner == me ) ++n[ i->second.tag ];
      for ( int i = 0; i < g_chart->desc.n; ++i ) if ( n[ i ] != ( m.s.alive[ i ] ? 1 : 0 ) ) m.fail( "leak", fmt( "%d state objects S%d are allocated", n[ i ], i ) );
    }
    void run()
    {
      g_track = true;
      for ( std::size_t i = 0; i < p.ops.size() && !unsure; ++i )
      {
        const MState & z = side[ p.ops[ i ].m ].beliefs[ 0 ];
        if ( z.q.size() > 5000 && p.ops[ i ].kind != 'T' && p.ops[ i ].kind != 'D' ) break; // these are only thrown away
        if ( holey( z ) ) ++tot.holey;
        else if ( g_rng && g_prof.partial > 0 && p.ops[ i ].kind == 'A' && g_rng->p( g_prof.partial ) )
        {
          const int e = terminatingEvent( z );
          if ( e != -1 ) { const_cast< Plan & >( p ).ops[ i ].type = e; if ( g_rec ) g_rec->ops[ i ].type = e; }
        }
        step( p.ops[ i ], false );
      }
      for ( int i = 0; i < 2 && !unsure; ++i ) { const int w = p.ops.size() & 1 ? 1 - i : i; if ( side[ w ].h || ( w == 0 && !side[ 1 ].used ) ) { Op o = { 1000000 + w, 'D', 0, 0, 0, w }; step( o, true ); } }
      for ( int i = 0; i < 2; ++i ) if ( side[ i ].h ) { g_destroying = true; delete side[ i ].h; g_destroying = false; side[ i ].h = 0; }
      g_ctx = "after the machine was destroyed";
      g_chart_dropHeld();
      if ( unsure ) return;
      for ( std::size_t i = 0; i < g_inst.size(); ++i ) if ( g_inst[ i ].alive ) throw Violated{ "evleak+m", "event " + evText( int( i ) + 1 ) + " was never destroyed" };
      if ( !g_live->empty() ) throw Violated{ "leak+m", fmt( "%d allocations were never released (%s)", int( g_live->size() ), tagName( g_live->begin()->second.tag ).c_str() ) };
      if ( !g_liveStd->empty() ) throw Violated{ "leak+m", fmt( "%d allocations were never released", int( g_liveStd->size() ) ) };
    }
    static std::string tagName( int t ) { return t < MAXS ? sname( t ) : t >= T_EVENT ? "an event" : "internal data"; }
    static void g_chart_dropHeld() { g_owner = 0; g_track = true; IMachine * x = 0; g_track = false; x = g_chart->create(); g_track = true; x->dropHeld(); g_track = false; delete x; g_track = true; }
};

static bool endsRegion( int st ) { return ends( g_runner->side[ g_owner ].beliefs[ 0 ], st ); }
void nested( unsigned code, const void * ev, int inst ) { g_runner->nested( code, ev, inst ); }

static Result simulate( const Plan & p, Rng * rng, Plan * rec )
{
  Result r;
  g_chart = 0; for ( std::size_t i = 0; i < charts().size(); ++i ) if ( charts()[ i ]->desc.id == p.chart ) g_chart = charts()[ i ];
  if ( g_chart == 0 ) { std::fprintf( stderr, "chart %d is not part of this simulator\n", p.chart ); std::exit( 2 ); }
  poolDrop(); g_reuse = p.reuse != 0; g_inst.clear(); g_live->clear(); g_liveStd->clear(); g_logical = g_exc = 0; g_faulty = false; g_hash = 7 + p.chart; g_plan = &p; g_rng = rng; g_rec = rec; g_depth = 1; g_ctx.clear(); g_nest = 0; g_nestDepth = g_owner = 0; g_two = false;
  ++tot.charts[ p.chart ]; ++tot.runs; g_refEvery = p.prop == "C15" ? 3 : 16; g_askEvery = p.prop == "C15" || p.prop == "C20" ? 1 : 4;
  Runner x( p );
  try { x.run(); }
  catch ( const Violated & v ) { fatal( v.cls.find( '+' ) == std::string::npos ? v.cls + "+" + x.m.flags() : v.cls, v.text ); }
  g_model = 0; g_track = false;
  r.hash = g_hash; r.faulty = g_faulty; if ( g_faulty ) ++tot.faultyRuns; if ( g_two ) ++tot.twoMachines;
  return r;
}

// ---- seeds ---------------------------------------------------------------------------------------------------------
static void generate( u64 seed, const std::string & prop, Plan & p, Rng & r )
{
  p.prop = prop; { Rng z( seed ^ 0x5A5A1234 ); p.reuse = z.in( 2 ); }
  std::vector< int > ids; for ( std::size_t i = 0; i < charts().size(); ++i ) ids.push_back( charts()[ i ]->desc.id );
  std::sort( ids.begin(), ids.end() );
  p.chart = ids[ r.in( int( ids.size() ) ) ];
  //          thr   kind0 post  defer snap  fwd  fail sticky clear term own  nest part  A   P  C  T  I  D  lo  hi
  Profile f = { 0,    0.7,  0.10, 0.4,  0.15, 0.8, 0,   0.2,   0.4,  0.4, 0.4, 0,   0,    80,  4, 2, 4, 4, 2, 5, 30 };
  int mode = r.in( 10 );
  const bool faulty = mode >= 3;
  if ( faulty ) f.thr = mode >= 8 ? 0.12 : mode >= 6 ? 0.05 : 0.02;
  if ( r.p( 0.3 ) ) f.kind0 = 1; else if ( r.p( 0.1 ) ) f.kind0 = 0.3;
  if ( faulty && r.p( 0.3 ) ) f.fail = 0.1;
  if ( r.p( 0.25 ) ) { f.post = 0.3; f.defer = 1; }
  if ( r.p( 0.15 ) ) { f.fwd = 3; }
  const std::string & q = prop;
  if ( q == "C07" || q == "C08" ) { if ( !faulty ) f.thr = 0.03; if ( q == "C08" ) f.kind0 = r.p( 0.5 ) ? 1 : 0.7; }
  else if ( q == "C14" ) { f.fail = r.p( 0.7 ) ? 0.3 : 0.05; }
  else if ( q == "C11" ) { f.post = 0.3; f.defer = 1.5; f.own = 0.6; }
  else if ( q == "C17" ) { f.post = 0.25; f.defer = 1; f.own = 0.7; if ( r.p( 0.4 ) ) f.fail = 0.15; }
  else if ( q == "C13" ) { f.wTerm = 9; f.wInit = 9; f.wDestroy = 5; f.term = 1.2; f.post = 0.2; f.wPost = 6; }
  else if ( q == "C12" ) { f.clear = 1; f.wClear = 4; if ( !faulty || r.p( 0.4 ) ) { f.thr = r.p( 0.5 ) ? 0 : 0.015; f.hi = 60; } }
  else if ( q == "C15" ) { f.snap = 0.6; }
  else if ( q == "C09" || q == "C10" ) { if ( r.p( 0.5 ) ) f.thr = 0.01; if ( q == "C10" && r.p( 0.4 ) ) f.fwd = 2.5; }
  if ( r.p( q == "C11" ? 0.15 : 0.05 ) ) { p.posts = 40; if ( f.post < 0.2 ) f.post = 0.2; }
  if ( r.p( q == "C09" || q == "C13" ? 0.45 : 0.2 ) ) f.partial = 0.5;
  const bool two = q == "C21" || r.p( 0.06 );
  if ( two ) f.nest = q == "C21" && r.p( 0.7 ) ? 0.12 : 0.03;
  g_prof = f;
  const int n = f.lo + r.in( f.hi - f.lo );
  const int sum = f.wA + f.wPost + f.wClear + f.wTerm + f.wInit + f.wDestroy;
  const int fav = r.in( NEV );
  for ( int i = 0; i < n; ++i )
  {
    Op o = { i, 'A', r.p( 0.3 ) ? fav : r.in( NEV ), 0, 0, two ? r.in( 2 ) : 0 };
    o.source = r.p( 0.55 ) ? 0 : r.p( 0.6 ) ? 1 : 3;
    int w = r.in( sum );
    if ( i == 0 && r.p( 0.95 ) ) o.kind = 'I';
    else if ( ( w -= f.wA ) < 0 ) o.kind = 'A';
    else if ( ( w -= f.wPost ) < 0 ) { o.kind = 'P'; }
    else if ( ( w -= f.wClear ) < 0 ) { o.kind = 'C'; o.type = r.in( 16 ); }
    else if ( ( w -= f.wTerm ) < 0 ) o.kind = 'T';
    else if ( ( w -= f.wInit ) < 0 ) o.kind = 'I';
    else o.kind = 'D';
    if ( o.kind == 'A' && r.p( 0.04 ) ) o.kind = 'E';
    if ( o.kind != 'D' && r.p( f.fail ) ) { o.fail = 1 + ( r.p( 0.6 ) ? r.in( 4 ) : r.in( 14 ) ); if ( r.p( f.sticky ) ) o.fail = -o.fail; }
    p.ops.push_back( o );
  }
  // rarely: the same event posted hundreds of times
  Rng z( seed ^ 0x77AA );
  if ( z.p( 0.0006 ) ) { Op o[] = { { n, 'P', z.in( NEV ), 3 | ( 65530 + z.in( 300 ) ) << 3, 0, 0 }, { n + 1, z.p( 0.7 ) ? 'T' : 'D', 0, 0, 0, 0 } }; p.ops.insert( p.ops.begin() + 1 + z.in( int( p.ops.size() ) ), o, o + 2 ); }
  else if ( z.p( 0.008 ) ) { Op o = { n, 'P', z.in( NEV ), ( z.p( 0.7 ) ? 3 : 1 ) | ( 30 + z.in( 320 ) ) << 3, 0, 0 }; p.ops.insert( p.ops.begin() + 1 + z.in( int( p.ops.size() ) ), o ); }
}

// ---- plans ---------------------------------------------------------------------------------------------------------
static void save( const char * path, const Plan & p, const Result & r, const std::string & note )
{
  FILE * f = std::fopen( path, "w" ); if ( !f ) { std::perror( path ); std::exit( 2 ); }
  std::fprintf( f, "# engine sync; property %s; violation %s: %s\n", p.prop.c_str(), r.cls.c_str(), r.text.c_str() );
  if ( !note.empty() ) std::fprintf( f, "# %s\n", note.c_str() );
  std::fprintf( f, "# op ID KIND(A event or initiate, E event, I initiate, T terminate, P post, C clear history, D destroy and recreate) TYPE SOURCE FAILING_ALLOCATION MACHINE; d OPERATION CALLBACK DECISION (negative callback: what it does with the other machine)\n" );
  std::fprintf( f, "expect %s %016llx\nprop %s\nchart %d\nposts %d\nreuse %d\n", r.cls.empty() ? "none" : r.cls.c_str(), r.hash, p.prop.c_str(), p.chart, p.posts, p.reuse );
  for ( std::size_t i = 0; i < p.ops.size(); ++i )
  {
    const Op & o = p.ops[ i ]; std::fprintf( f, "op %d %c %d %d %d %d\n", o.id, o.kind, o.type, o.source, o.fail, o.m );
    for ( std::map< Key, unsigned >::const_iterator j = p.dec.begin(); j != p.dec.end(); ++j ) if ( j->first.first == o.id || topOp( j->first.first ) == o.id )
      std::fprintf( f, "d %d %d %x\n", j->first.first, j->first.second, j->second );
  }
  std::fclose( f );
}
static bool load( const char * path, Plan & p )
{
  FILE * f = std::fopen( path, "r" ); if ( !f ) return false;
  char line[ 2000 ], w[ 200 ];
  while ( std::fgets( line, sizeof line, f ) )
  {
    if ( line[ 0 ] == '#' || std::sscanf( line, "%199s", w ) != 1 ) continue;
    std::string k = w;
    if ( k == "prop" ) { std::sscanf( line, "%*s %199s", w ); p.prop = w; }
    else if ( k == "chart" ) std::sscanf( line, "%*s %d", &p.chart );
    else if ( k == "posts" ) std::sscanf( line, "%*s %d", &p.posts );
    else if ( k == "reuse" ) std::sscanf( line, "%*s %d", &p.reuse );
    else if ( k == "expect" ) { std::sscanf( line, "%*s %199s %llx", w, &p.hash ); p.expect = w; }
    else if ( k == "op" ) { Op o = Op(); std::sscanf( line, "%*s %d %c %d %d %d %d", &o.id, &o.kind, &o.type, &o.source, &o.fail, &o.m ); o.m &= 1; p.ops.push_back( o ); }
    else if ( k == "d" ) { int a, b; unsigned v; std::sscanf( line, "%*s %d %d %x", &a, &b, &v ); p.dec[ Key( a, b ) ] = v; }
  }
  std::fclose( f ); return true;
}

static double now() { timespec t; clock_gettime( CLOCK_MONOTONIC, &t ); return t.tv_sec + t.tv_nsec * 1e-9; }
static double g_t0; static FILE * g_hf; static std::unordered_set< u64 > g_seen; static std::string g_dump; static Plan * g_dumpPlan; static std::string g_tmp;

static void stats()
{
  std::string ti = "{", ch = "{", wh = "{";
  for ( std::map< std::string, u64 >::iterator i = tot.why.begin(); i != tot.why.end(); ++i ) wh += ( wh.size() > 1 ? "," : "" ) + ( "\"" + i->first + "\":" ) + std::to_string( i->second );
  for ( std::map< std::string, u64 >::iterator i = tot.thrownIn.begin(); i != tot.thrownIn.end(); ++i ) ti += ( ti.size() > 1 ? "," : "" ) + ( "\"" + i->first + "\":" ) + std::to_string( i->second );
  for ( std::map< int, u64 >::iterator i = tot.charts.begin(); i != tot.charts.end(); ++i ) ch += ( ch.size() > 1 ? "," : "" ) + ( "\"" + std::to_string( i->first ) + "\":" ) + std::to_string( i->second );
  std::printf( "STATS {\"runs\":%llu,\"seeds\":%llu,\"distinct_histories\":%zu,\"distinct_machine_states\":%zu,\"wall\":%.2f,\"operations\":%llu,\"callbacks\":%llu,\"exceptions\":%llu,\"exceptions_in\":%s},"
    "\"allocation_failures\":%llu,\"posts\":%llu,\"operations_ending_with_deferred_events\":%llu,\"machine_operations\":%llu,\"recreations\":%llu,\"operations_with_handled_exceptions\":%llu,\"operations_failing_at_the_caller\":%llu,"
    "\"operations_entering_history\":%llu,\"state_queries_inside_callbacks\":%llu,\"runs_with_faults\":%llu,\"runs_with_two_machines\":%llu,\"operations_nested_in_another_machine\":%llu,\"operations_with_an_empty_region\":%llu,\"memory_blocks_reused\":%llu,\"inconclusive_runs\":%llu,\"inconclusive_because\":%s},\"model_branches\":%llu,\"runs_per_chart\":%s}}\n",
    tot.runs, tot.seeds, g_seen.size(), g_states.size(), now() - g_t0, tot.ops, tot.callbacks, tot.exceptions, ti.c_str(), tot.allocFailures, tot.posts, tot.defers, tot.machineOps, tot.recreations, tot.handled, tot.outcomes,
    tot.historyEntries, tot.snaps, tot.faultyRuns, tot.twoMachines, tot.nestedOps, tot.holey, tot.reused, tot.inconclusive, wh.c_str(), tot.branches, ch.c_str() );
}
static void answer( const Result & r )
{
  std::printf( "%s seed=%llu class=%s faulty=%d hash=%016llx text=%s\n", r.bad ? "FAIL" : "PASS", g_seed, r.cls.c_str(), r.faulty, r.hash, r.text.c_str() );
  std::fflush( stdout );
}
static bool g_batch;
static void onFatalDefault( const Result & r )
{
  if ( g_dumpPlan ) save( g_dump.c_str(), *g_dumpPlan, r, "from seed " + std::to_string( g_seed ) );
  answer( r );
  if ( g_batch ) { stats(); if ( g_hf ) std::fclose( g_hf ); std::fflush( stdout ); }
}

// run one plan in a child process; its answer comes back through a file
static Result isolated( const Plan & p )
{
  std::fflush( stdout ); unlink( g_tmp.c_str() );
  pid_t pid = fork();
  if ( pid == 0 )
  {
    int fd = open( g_tmp.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 ); dup2( fd, 1 ); dup2( fd, 2 ); limitTime( 15 );
    Result r = simulate( p, 0, 0 ); answer( r ); _exit( 0 );
  }
  int st; waitpid( pid, &st, 0 );
  Result r; r.bad = true; r.cls = "crash"; r.text = "the simulation ended without an answer";
  FILE * f = std::fopen( g_tmp.c_str(), "r" ); char line[ 4000 ], c[ 200 ];
  while ( f && std::fgets( line, sizeof line, f ) )
  {
    if ( std::strncmp( line, "FAIL ", 5 ) && std::strncmp( line, "PASS ", 5 ) ) continue;
    r.bad = line[ 0 ] == 'F'; c[ 0 ] = 0; unsigned long long hh = 0; int fa = 0;
    char * q = std::strstr( line, "class=" ); if ( q && q[ 6 ] != ' ' ) std::sscanf( q + 6, "%199s", c );
    q = std::strstr( line, "faulty=" ); if ( q ) std::sscanf( q, "faulty=%d hash=%llx", &fa, &hh );
    r.cls = c; r.hash = hh; r.faulty = fa; q = std::strstr( line, "text=" ); r.text = q ? q + 5 : ""; while ( !r.text.empty() && r.text[ r.text.size() - 1 ] == '\n' ) r.text.erase( r.text.size() - 1 );
  }
  if ( f ) std::fclose( f ); unlink( g_tmp.c_str() );
  return r;
}
static int usage() { std::fprintf( stderr, "ssim batch PROP START STRIDE SECONDS MAXRUNS [HASHFILE] | one PROP SEED [-v] | dump PROP SEED OUT | replay PLAN [-v] | minimise PLAN OUT SECONDS | charts\n" ); return 2; }
} // namespace ssim
using namespace ssim;

int main( int argc, char ** argv )
{
  if ( argc < 2 ) return usage();
  const std::string mode = argv[ 1 ];
  static std::unordered_map< void *, Alloc > live; static std::unordered_map< void *, std::size_t > liveStd; g_live = &live; g_liveStd = &liveStd;
  g_onFatal = &onFatalDefault; g_t0 = now();
  if ( __sanitizer_set_death_callback ) __sanitizer_set_death_callback( &onDeath );
  signal( SIGALRM, &onSignal ); signal( SIGPROF, &onSignal ); signal( SIGABRT, &onSignal ); signal( SIGILL, &onSignal );
  if ( mode == "charts" ) { for ( std::size_t i = 0; i < charts().size(); ++i ) std::printf( "%d %s\n", charts()[ i ]->desc.id, charts()[ i ]->desc.what ); return 0; }
  if ( mode == "batch" && argc >= 7 )
  {
    const std::string prop = argv[ 2 ]; const u64 start = std::strtoull( argv[ 3 ], 0, 10 ), stride = std::strtoull( argv[ 4 ], 0, 10 ); const u64 maxRuns = std::strtoull( argv[ 6 ], 0, 10 );
    const double limit = g_t0 + std::atof( argv[ 5 ] ); g_batch = true; if ( argc > 7 ) g_hf = std::fopen( argv[ 7 ], "ab" );
    int sf = argc > 7 ? open( ( std::string( argv[ 7 ] ) + ".seed" ).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 ) : -1;
    for ( u64 k = 0; maxRuns == 0 || k < maxRuns; ++k )
    {
      if ( ( k & 15 ) == 0 && now() > limit ) break;
      g_seed = start + k * stride;
      if ( sf >= 0 ) { char b[ 32 ]; int n = std::snprintf( b, sizeof b, "%-24llu\n", g_seed ); if ( pwrite( sf, b, n, 0 ) ) {} }
      limitTime( 30 );
      Rng r( g_seed ); Plan p; generate( g_seed, prop, p, r ); ++tot.seeds;
      Result x = simulate( p, &r, 0 );
      if ( g_seen.size() < 4000000 && g_seen.insert( x.hash ).second && g_hf && x.faulty ) std::fwrite( &x.hash, 8, 1, g_hf );
    }
    limitTime( 0 ); if ( g_hf ) std::fclose( g_hf );
    stats(); return 0;
  }
  if ( ( mode == "one" && argc >= 4 ) || ( mode == "dump" && argc >= 5 ) )
  {
    g_seed = std::strtoull( argv[ 3 ], 0, 10 ); Rng r( g_seed ); Plan p; generate( g_seed, argv[ 2 ], p, r ); limitTime( 30 );
    if ( mode == "dump" ) { g_dump = argv[ 4 ]; g_dumpPlan = &p; } else g_verbose = argc > 4;
    if ( g_verbose ) std::printf( "chart %d\n", p.chart );
    Plan q = p; Result x = simulate( q, &r, &p );
    if ( mode == "dump" ) save( g_dump.c_str(), p, x, "from seed " + std::string( argv[ 3 ] ) );
    answer( x ); return 0;
  }
  if ( mode == "replay" && argc >= 3 )
  {
    Plan p; if ( !load( argv[ 2 ], p ) ) { std::perror( argv[ 2 ] ); return 2; }
    g_verbose = argc > 3; limitTime( 60 ); if ( g_verbose ) std::printf( "chart %d\n", p.chart );
    Result x = simulate( p, 0, 0 ); answer( x ); return 0;
  }
  if ( mode == "minimise" && argc >= 5 )
  {
    Plan p; if ( !load( argv[ 2 ], p ) ) { std::perror( argv[ 2 ] ); return 2; }
    const double limit = now() + std::atof( argv[ 4 ] ); g_tmp = std::string( argv[ 3 ] ) + ".tmp";
    Result best = isolated( p ); if ( !best.bad ) { std::printf( "NOREPRO\n" ); return 3; }
    const std::size_t ops0 = p.ops.size(), dec0 = p.dec.size(); int tries = 0;
    // what went on in earlier operations does not have to stay the same
    struct Try { static std::string core( std::string c ) { std::string::size_type k = c.find( '+' ); while ( k != std::string::npos && ( k = c.find_first_of( "uvwn", k + 1 ) ) != std::string::npos ) c.erase( k--, 1 ); return c; }
      static bool same( const Plan & q, Result & best, int & tries ) { ++tries; Result r = isolated( q ); if ( !r.bad || core( r.cls ) != core( best.cls ) ) return false; best = r; return true; } };
    bool progress = true;
    while ( progress && now() < limit )
    {
      progress = false;
      for ( std::size_t chunk = p.ops.size(); chunk >= 1; chunk /= 2 )
        for ( std::size_t i = 0; i + chunk <= p.ops.size() && now() < limit; )
        {
          Plan q = p; q.ops.erase( q.ops.begin() + i, q.ops.begin() + i + chunk );
          if ( Try::same( q, best, tries ) ) { p = q; progress = true; } else i += chunk;
        }
      { Plan q = p; q.dec.clear(); std::set< int > ids; for ( std::size_t i = 0; i < p.ops.size(); ++i ) ids.insert( p.ops[ i ].id ); for ( std::map< Key, unsigned >::iterator i = p.dec.begin(); i != p.dec.end(); ++i ) if ( ids.count( i->first.first ) || ids.count( topOp( i->first.first ) ) || topOp( i->first.first ) / 2 == 500000 ) q.dec.insert( *i ); p = q; }
      std::vector< Key > keys; for ( std::map< Key, unsigned >::iterator i = p.dec.begin(); i != p.dec.end(); ++i ) keys.push_back( i->first );
      for ( std::size_t chunk = keys.size(); chunk >= 1; chunk /= 2 )
        for ( std::size_t i = 0; i + chunk <= keys.size() && now() < limit; )
        {
          Plan q = p; for ( std::size_t j = i; j < i + chunk; ++j ) q.dec.erase( keys[ j ] );
          if ( Try::same( q, best, tries ) ) { p = q; keys.erase( keys.begin() + i, keys.begin() + i + chunk ); progress = true; } else i += chunk;
        }
      const unsigned fields[] = { D_SNAP, 3u << D_NPOST_SHIFT | 0xfffu << D_POST_SHIFT, 3u << D_THROW_SHIFT | 3u << D_KIND_SHIFT, D_OPT };
      for ( std::size_t i = 0; i < keys.size(); ++i ) for ( int f = 0; f < 4 && now() < limit; ++f )
      {
        if ( keys[ i ].second < 0 || !( p.dec[ keys[ i ] ] & fields[ f ] ) ) continue;
        Plan q = p; q.dec[ keys[ i ] ] &= ~fields[ f ]; if ( Try::same( q, best, tries ) ) { p = q; progress = true; }
      }
      for ( std::size_t i = 0; i < p.ops.size(); ++i ) // an operation nested in another machine's: does it have to be?
        for ( std::map< Key, unsigned >::iterator j = p.dec.begin(); j != p.dec.end() && now() < limit; ++j )
          if ( j->first.first == p.ops[ i ].id && j->first.second < 0 )
          {
            Plan q = p; Op o = nestedOp( j->second, p.ops[ i ].id, -1 - j->first.second, 1 - p.ops[ i ].m ); if ( o.source == 4 ) o.source = 1;
            q.dec.erase( j->first ); q.ops.insert( q.ops.begin() + i, o );
            if ( Try::same( q, best, tries ) ) { p = q; progress = true; break; }
          }
      for ( std::size_t i = 0; i < p.ops.size() && now() < limit; ++i )
      {
        if ( p.ops[ i ].fail ) { Plan q = p; q.ops[ i ].fail = 0; if ( Try::same( q, best, tries ) ) { p = q; progress = true; } }
        if ( p.ops[ i ].m ) { Plan q = p; q.ops[ i ].m = 0; if ( Try::same( q, best, tries ) ) { p = q; progress = true; } }
        while ( p.ops[ i ].source > 7 ) { Plan q = p; q.ops[ i ].source = ( q.ops[ i ].source & 7 ) | ( q.ops[ i ].source >> 4 ) << 3; if ( Try::same( q, best, tries ) ) { p = q; progress = true; } else break; }
        if ( p.ops[ i ].source ) { Plan q = p; q.ops[ i ].source = 0; if ( Try::same( q, best, tries ) ) { p = q; progress = true; } }
      }
    }
    best = isolated( p );
    save( argv[ 3 ], p, best, fmt( "minimised from %d operations and %d decisions to %d and %d in %d runs", int( ops0 ), int( dec0 ), int( p.ops.size() ), int( p.dec.size() ), tries ) );
    std::printf( "minimised from %d operations and %d decisions to %d and %d in %d runs\n", int( ops0 ), int( dec0 ), int( p.ops.size() ), int( p.dec.size() ), tries );
    return 0;
  }
  return usage();
}
