// Concurrent part of the simulation: program generator, history checker, seed search, replay and minimisation.
#include "rt.hpp"
#include "plan.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <set>
#include <map>
#include <deque>
#include <string>
#include <vector>
#include <algorithm>
#include <unordered_set>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>

typedef std::uint32_t u32; typedef std::uint64_t u64;
Program * g_prog;

namespace boost
{
void assertion_failed( char const * expr, char const *, char const * file, long line )
{
  const char * b = std::strrchr( file, '/' );
  rt::violation( "assert", "assertion %s failed at %s:%ld", expr, b ? b + 1 : file, line );
}
void assertion_failed_msg( char const * expr, char const *, char const * fn, char const * file, long line ) { assertion_failed( expr, fn, file, line ); }
}

// ---------------------------------------------------------------------------------------------- generator
namespace
{
struct Profile
{
  int st[ 3 ];                 // weights of the scheduler types
  int multi;                   // percent: more than one scheduler
  int wait;                    // percent: blocking worker
  int wQ, wT, wC, wE, wI, wX, wD, wY, wZ;
  int am;                      // percent of processors that are state machines
  int body, throwing, fail, initFail, shared, mmode;
  int minOps, maxOps, maxClients, limited;
};
Profile profileOf( const std::string & p )
{
  //               type       multi wait  Q  T  C  E  I  X  D  Y  Z   am body thr fail init shared mmode ops    cl lim
  if ( p == "C01" ) return { { 2, 2, 4 }, 15, 60, 60,  2,  2,  6,  1,  1,  1, 10,  0,  30, 35,  2,  2,  0,  10,  0,  2,  9, 4, 40 };
  if ( p == "C02" ) return { { 1, 1, 3 },  5, 65, 55,  5,  1,  3,  1,  0,  0, 14,  0,  20, 30,  2,  0,  0,   0,  0,  1,  6, 4, 70 };
  if ( p == "C03" ) return { { 3, 2, 1 }, 30, 60, 16,  1, 10, 30,  4,  3,  5,  8,  8,  45, 25,  3,  2,  2,  80, 45,  2,  8, 4, 40 };
  if ( p == "C04" ) return { { 3, 2, 0 }, 15, 55,  6,  2, 18, 30, 10,  8, 12,  8,  0,  30, 30,  6,  2,  0,  15,  0,  3, 11, 4, 50 };
  if ( p == "C05" ) return { { 3, 2, 1 }, 10, 50, 22,  3, 12, 20,  6,  4,  6,  6,  0,  35, 50, 45, 40, 15,  10,  0,  2,  8, 3, 50 };
  /* C06 */         return { { 3, 2, 0 }, 55, 65,  4,  1, 14, 45,  8,  5,  4,  7,  0,  95, 25, 10,  3,  0,  20,  0,  3, 10, 4, 40 };
}

struct Gen
{
  rt::Rng r; Program & p; Profile f; int nid; bool P;
  struct Slot { int id, type, sch, owner, nI, nX, nD; bool ring; std::set< int > shared; };
  std::vector< Slot > slots; bool zUsed[ 4 ];
  Gen( u64 seed, Program & pp, const std::string & prop ) : r( seed * 2 + 1 ), p( pp ), f( profileOf( prop ) ), nid( 1 ) { for ( bool & z : zUsed ) z = false; }
  bool pct( int x ) { return r.chance( x, 100 ); }
  int pick( std::initializer_list< int > w )
  {
    int s = 0; for ( int x : w ) s += x;
    int k = int( r.below( s ) ), i = 0;
    for ( int x : w ) { if ( k < x ) return i; k -= x; ++i; }
    return 0;
  }
  Op op( char k, int sch, int a = 0, int b = 0, int c = 0 ) { Op o = { k, nid++, sch, a, b, c, 0 }; return o; }
  void makeBody( int unit, int self, int depth, int owner )
  {
    if ( depth >= 2 || nid > 600 ) return;
    std::vector< Op > v; int n = r.range( 1, 3 );
    for ( int i = 0; i < n; ++i ) emit( v, self, depth + 1, owner );
    if ( pct( f.throwing ) ) v.push_back( op( 'H', 0 ) );
    p.body[ unit ] = v;
  }
  void emitEvent( std::vector< Op > & v, int si, bool asSelf, int depth, int owner )
  {
    Slot s = slots[ si ];
    if ( p.nShared && depth == 0 && pct( 35 ) )
    {
      int k = int( r.below( p.nShared ) );
      if ( slots[ si ].shared.insert( k ).second ) { v.push_back( op( 'E', 0, s.id, 100 + k ) ); return; }
    }
    int what = 0, k = 0;
    if ( s.type == 7 )
    {
      what = pick( { 30, 22, 20, s.ring ? 25 : 0, f.throwing / 3, 15 } );
      if ( what == 0 ) k = pct( 1 ) ? r.range( 20, 280 ) : r.range( 0, 3 );
      if ( what == 3 ) k = r.range( 1, 7 );
    }
    Op o = op( 'E', 0, asSelf ? -1 : s.id, what, k );
    v.push_back( o );
    if ( ( s.type != 7 && pct( f.body ) ) || what == 5 ) makeBody( o.id, si, depth, owner );
  }
  void emit( std::vector< Op > & v, int self, int depth, int owner )
  {
    int sch = int( r.below( p.nSched ) );
    int k = P ? pick( { f.wQ, f.wT, f.wC, f.wE, f.wI, f.wX, f.wD, f.wY, depth ? 0 : f.wZ } ) : pick( { f.wQ, f.wT, 0, 0, 0, 0, 0, f.wY, 0 } );
    if ( k >= 3 && k <= 6 && slots.empty() ) k = 2;
    std::size_t at = v.size();
    int si = slots.empty() ? -1 : int( r.below( slots.size() ) );
    if ( si >= 0 && pct( 50 ) ) si = int( slots.size() ) - 1;
    bool asSelf = self >= 0 && pct( 40 );
    if ( asSelf ) si = self;
    switch ( k )
    {
      case 0:
      {
        int form = pick( { 30, 30, 3, 3, 17, 17 } );
        Op o = op( 'Q', sch, form ); v.push_back( o );
        if ( form != 2 && form != 3 && pct( f.body ) ) makeBody( o.id, -1, depth, owner );
        break;
      }
      case 1: v.push_back( op( 'T', sch ) ); break;
      case 2:
      {
        if ( slots.size() >= 10 ) { v.push_back( op( 'Y', 0 ) ); break; }
        Op o = op( 'C', sch );
        Slot s; s.id = o.id; s.sch = sch; s.owner = owner; s.nI = s.nX = s.nD = 0; s.ring = false;
        if ( pct( f.am ) ) { o.b = 7; if ( depth == 0 && pct( 70 ) ) { o.c = 1; s.ring = true; } }
        else
        {
          o.b = r.range( 1, 6 );
          if ( pct( 12 ) ) o.b = 14 + int( r.below( 2 ) );
          if ( pct( 20 ) ) { int z = int( r.below( 4 ) ); if ( !zUsed[ z ] ) { zUsed[ z ] = true; o.b = 10 + z; } }
        }
        s.type = o.b; int idx = int( slots.size() );
        slots.push_back( s ); v.push_back( o );
        if ( pct( f.body / 2 ) ) makeBody( 300000 + o.id, idx, depth, -1 );
        if ( o.b != 7 && pct( f.body / 2 ) ) makeBody( 100000 + o.id, idx, depth, -1 );
        if ( o.b != 7 && pct( f.body / 3 ) ) makeBody( 200000 + o.id, idx, depth, -1 );
        if ( f.fail && pct( f.fail ) ) { for ( Op & q : v ) if ( q.id == o.id ) q.fail = r.range( 1, 7 ); }
        if ( depth == 0 && pct( 75 ) ) { slots[ idx ].nI = 1; v.push_back( op( 'I', 0, o.id ) ); }
        if ( pct( 60 ) ) emitEvent( v, idx, false, depth, owner );
        break;
      }
      case 3: emitEvent( v, si, asSelf, depth, owner ); break;
      case 4: // initiate: only from the thread that created it, so that several requests stay attributable
        if ( depth == 0 && slots[ si ].owner == owner && slots[ si ].nI < ( slots[ si ].type == 7 ? 3 : 1 ) )
        { ++slots[ si ].nI; v.push_back( op( 'I', 0, slots[ si ].id ) ); }
        break;
      case 5:
        if ( depth == 0 && slots[ si ].owner == owner && slots[ si ].nX < ( slots[ si ].type == 7 ? 3 : 1 ) )
        { ++slots[ si ].nX; v.push_back( op( 'X', 0, slots[ si ].id ) ); }
        break;
      case 6: if ( slots[ si ].nD < 2 ) { ++slots[ si ].nD; v.push_back( op( 'D', 0, asSelf ? -1 : slots[ si ].id ) ); } break;
      case 7: v.push_back( op( 'Y', 0 ) ); break;
      case 8: if ( p.nShared ) v.push_back( op( 'Z', 0, r.below( p.nShared ) ) ); break;
    }
    if ( f.fail ) for ( std::size_t i = at; i < v.size(); ++i )
      if ( std::strchr( "QTEDIX", v[ i ].kind ) && !v[ i ].fail && pct( f.fail ) ) v[ i ].fail = r.range( 1, 5 );
  }
  void build()
  {
    if ( pct( f.mmode ) ) { buildM(); return; }
    if ( p.prop != "C03" && pct( p.prop == "C02" ? 8 : 4 ) && simSingle3 ) { buildS(); return; }
    p.stype = pick( { f.st[ 0 ], f.st[ 1 ], f.st[ 2 ] } ); P = p.stype != 2;
    p.nSched = pct( f.multi ) ? r.range( 2, 3 ) : 1;
    if ( !P && p.nSched > 2 ) p.nSched = 2;
    for ( int i = 0; i < 3; ++i ) p.wait[ i ] = pct( f.wait );
    p.nClients = r.range( 1, f.maxClients );
    if ( p.nSched + p.nClients > 7 ) p.nClients = 7 - p.nSched;
    p.nShared = P && pct( f.shared ) ? r.range( 1, 4 ) : 0;
    p.initFail = pct( f.initFail ) ? r.range( 1, 3 ) : 0;
    for ( int c = 0; c < p.nClients; ++c )
    {
      std::vector< Op > & v = p.ops[ p.nSched + 1 + c ]; int n = r.range( f.minOps, f.maxOps );
      for ( int i = 0; i < n; ++i ) emit( v, -1, 0, p.nSched + 1 + c );
    }
    // now and then one thread sends a lot, so that queues grow long
    int bulk = 0;
    if ( r.chance( p.prop == "C01" || p.prop == "C02" ? 3 : 2, 100 ) )
    {
      bulk = pct( 40 ) ? r.range( 240, 280 ) : r.range( 12, 70 );
      const int c = int( r.below( p.nClients ) ), fib = p.nSched + 1 + c; const int sch = int( r.below( p.nSched ) );
      std::vector< Op > v; int to = -1;
      for ( std::size_t i = 0; i < slots.size(); ++i ) if ( slots[ i ].owner == fib ) to = int( i );
      const bool events = to >= 0 && pct( 60 );
      for ( int i = 0; i < bulk; ++i )
      {
        if ( events && pct( 80 ) ) v.push_back( op( 'E', 0, slots[ to ].id, 0, 0 ) );
        else v.push_back( op( 'Q', sch, r.below( 2 ) ) );
        if ( pct( 1 ) ) v.push_back( op( 'Y', 0 ) );
      }
      std::vector< Op > & w = p.ops[ fib ]; const int at = events ? int( w.size() ) : int( r.below( unsigned( w.size() ) + 1 ) );
      w.insert( w.begin() + at, v.begin(), v.end() );
    }
    for ( int s = 0; s < p.nSched; ++s )
    {
      std::vector< Op > & v = p.ops[ 1 + s ]; int n = p.wait[ s ] ? r.range( 1, 4 ) : r.range( 2, 6 );
      for ( int i = 0; i < n; ++i )
      {
        if ( pct( p.wait[ s ] ? 15 : 60 ) ) for ( int k = r.range( 1, 3 ); k > 0; --k ) v.push_back( op( 'Y', 0 ) );
        if ( pct( 12 ) ) emit( v, -1, 0, 1 + s );
        Op o = op( 'R', s, pct( f.limited ) ? ( bulk && pct( 50 ) ? r.range( 1, bulk + 4 ) : r.range( 1, 5 ) ) : 0 );
        if ( f.fail && pct( f.fail ) ) o.fail = r.range( 1, r.range( 4, 40 ) );
        v.push_back( o );
      }
    }
  }
  // a single-threaded build: one thread submits and runs
  void buildS()
  {
    P = f.st[ 2 ] == 0 || pct( 55 ); p.stype = P ? 3 : 4; p.nClients = 0; p.nShared = P && pct( f.shared ) ? r.range( 1, 4 ) : 0;
    std::vector< Op > & v = p.ops[ 1 ]; const int n = r.range( 2, 7 );
    for ( int i = 0; i < n; ++i )
    {
      for ( int k = r.range( 0, f.maxOps / 2 + 1 ); k > 0; --k ) emit( v, -1, 0, 1 );
      Op o = op( 'R', 0, pct( f.limited ) ? r.range( 1, 5 ) : 0 );
      if ( f.fail && pct( f.fail ) ) o.fail = r.range( 1, r.range( 4, 40 ) );
      v.push_back( o );
    }
  }
  void buildM()
  {
    p.mode = 1; p.nSched = 0; p.nClients = r.range( 2, 4 ); p.nShared = pct( 70 ) ? r.range( 1, 4 ) : 0;
    for ( int c = 1; c <= p.nClients; ++c )
    {
      int n = r.range( 4, 14 );
      if ( pct( 90 ) ) p.ops[ c ].push_back( op( 'M', 0, 10 ) );
      if ( pct( 85 ) ) p.ops[ c ].push_back( op( 'M', 0, 8, r.below( 9 ) ) );
      for ( int i = 0; i < n; ++i )
      {
        int a = pick( { 14, 9, 7, 7, 10, 8, 3, 8, 6, 4, 3, 3, 2, p.nShared ? 12 : 0, p.nShared ? 6 : 0, 5, p.nShared ? 3 : 0 } );
        int b = a == 13 || a == 14 || a == 16 ? int( r.below( p.nShared ? p.nShared : 1 ) ) : int( r.below( 9 ) );
        Op o = op( 'M', 0, a, b, r.below( 2 ) );
        if ( pct( 4 ) ) o.fail = r.range( 1, 6 );
        p.ops[ c ].push_back( o );
      }
    }
  }
};

rt::SchedConfig schedOf( u64 seed, const Program & p )
{
  rt::Rng r( seed * 2 ); rt::SchedConfig c; c.seed = seed;
  int s = int( r.below( 20 ) );
  c.strategy = s < 12 ? 0 : s < 19 ? 1 : 2;
  static const unsigned dens[] = { 2, 3, 5, 9, 17 };
  c.switchDen = dens[ r.below( 5 ) ]; c.switchNum = 1;
  c.pctDepth = r.range( 1, 6 ); c.pctLength = 40 + r.below( 900 );
  static const unsigned mems[] = { 0, 0, 0, 400, 120, 40, 15 };
  c.memDen = mems[ r.below( p.mode == 1 ? 7 : 7 ) ];
  static const unsigned sp[] = { 0, 0, 60, 25, 10 };
  c.spuriousDen = sp[ r.below( 5 ) ];
  return c;
}

// ---------------------------------------------------------------------------------------------- checker
struct Result { bool bad, faulty; std::string cls, text; u64 hash; Result() : bad( false ), faulty( false ), hash( 0 ) {} };
struct Fail { std::string cls, text; };
[[noreturn]] void bad( const char * cls, const char * fmt, ... ) __attribute__(( format( printf, 2, 3 ) ));
void bad( const char * cls, const char * fmt, ... )
{
  char b[ 600 ]; va_list ap; va_start( ap, fmt ); std::vsnprintf( b, sizeof b, fmt, ap ); va_end( ap );
  Fail f = { cls, b }; throw f;
}

const u32 INF = 0xFFFFFFFF;
struct Unit { int id; char kind; int sch, slot, ev; u32 inv, ret; int code; int fib; u32 obs; const Op * op; };

struct Checker
{
  const Program & p; const rt::Ev * e; std::size_t n;
  std::vector< Unit > u; std::map< int, int > byId; std::map< std::pair< int, int >, int > evUnit; // (slot, event)
  struct SlotInfo { int sch = -1, type = 0; u32 pc = 0, pd = 0; bool threw = false; bool lenient = false; std::vector< int > I, X, D; int nPI = 0, nPT = 0; bool adSeen = false; };
  std::map< int, SlotInfo > slot;
  struct Sched
  {
    int runner = -1; int n = 0, opid = 0; u32 begin = 0, window = 0; int xb = 0, observed = 0; bool termAtBegin = false, term = false;
    u32 termSeq = INF; std::vector< int > O; std::vector< int > T; long sum = 0; int rx = 0, rxAlloc = 0; bool onlyQ = true; bool everRan = false;
    std::vector< std::pair< u32, int > > asleep; int lastThrow = 0;
  } sc[ 3 ];
  std::set< int > thrown; u32 drain = INF, phase3 = INF; bool anyFault = false;
  std::map< int, const Op * > opById;

  Checker( const Program & pp ) : p( pp )
  {
    e = rt::events( n );
    for ( int f = 0; f < 16; ++f ) for ( const Op & o : p.ops[ f ] ) opById[ o.id ] = &o;
    for ( auto & b : p.body ) for ( const Op & o : b.second ) opById[ o.id ] = &o;
  }
  const char * k( const Unit & x )
  { return x.kind == 'Q' ? "item" : x.kind == 'E' ? "event" : x.kind == 'C' ? "create" : x.kind == 'D' ? "destroy" : x.kind == 'I' ? "initiate" : x.kind == 'X' ? "terminate-processor" : "terminate"; }
  const char * cl( const char * what, const Unit & x )
  {
    static char b[ 64 ];
    std::snprintf( b, sizeof b, "%s-%s", what, x.kind == 'Q' ? "item" : x.kind == 'E' ? ( isAM( x.slot ) ? "amevent" : "event" ) : x.kind == 'T' ? "terminate" : isAM( x.slot ) ? "amrequest" : "request" );
    return b;
  }
  bool isAM( int s ) { auto i = slot.find( s ); return i != slot.end() && i->second.type == 7; }

  void observe( int ui, const rt::Ev & v )
  {
    Unit & x = u[ ui ]; Sched & s = sc[ x.sch ];
    if ( s.runner != v.fiber ) bad( cl( "thread", x ), "%s %d of scheduler %d was executed by fiber %d, which does not run it", k( x ), x.id, x.sch, v.fiber );
    if ( x.obs ) bad( cl( "dup", x ), "%s %d was executed twice (at %u and %u)", k( x ), x.id, x.obs, v.seq );
    if ( x.code == 1 ) bad( "fault-executed", "%s %d was executed although submitting it had failed", k( x ), x.id );
    if ( s.term ) bad( "ran-after-termination", "%s %d was executed after scheduler %d reported termination", k( x ), x.id, x.sch );
    x.obs = v.seq; s.O.push_back( ui ); ++s.observed;
  }
  void checkRunner( int sl, const rt::Ev & v, const char * what )
  {
    auto i = slot.find( sl ); if ( i == slot.end() ) bad( "thread-request", "%s of unknown processor %d", what, sl );
    int s = i->second.sch;
    if ( v.seq > drain && v.fiber == 0 ) return;
    if ( sc[ s ].runner != v.fiber ) bad( i->second.type == 7 ? "thread-amrequest" : "thread-request", "%s of processor %d by fiber %d, which does not run scheduler %d", what, sl, v.fiber, s );
  }
  int eventUnit( int sl, int ev ) { auto i = evUnit.find( std::make_pair( sl, ev ) ); if ( i == evUnit.end() ) return -1; return i->second; }

  // a request that was accepted and has not been seen: is there a reason?
  bool legitMissing( const Unit & x )
  {
    if ( x.kind == 'Q' || x.kind == 'T' ) return false;
    auto i = slot.find( x.slot ); if ( i == slot.end() ) return true;
    SlotInfo & s = i->second;
    if ( s.lenient ) return true;
    if ( x.kind == 'C' ) return sc[ x.sch ].rxAlloc > 0;
    if ( !s.pc || s.threw ) return true;
    if ( x.kind == 'D' ) return s.pd && s.pd < drain;
    if ( x.kind == 'X' && s.type == 7 ) return true;
    if ( x.kind == 'I' && s.type == 7 && sc[ x.sch ].rxAlloc > 0 ) return true;
    for ( int d : s.D ) if ( u[ d ].code != 1 && !( x.ret < u[ d ].inv ) ) return true;
    return false;
  }

  void walk()
  {
    for ( std::size_t i = 0; i < n; ++i )
    {
      const rt::Ev & v = e[ i ];
      switch ( v.kind )
      {
        case QI:
        {
          if ( v.b == 'N' ) break;
          if ( v.b != 'T' ) sc[ v.c ].onlyQ = sc[ v.c ].onlyQ && v.b == 'Q';
          Unit x; x.id = v.a; x.kind = char( v.b == 'S' ? 'E' : v.b ); x.sch = v.c; x.slot = v.d; x.ev = v.a; x.inv = v.seq; x.ret = INF; x.code = -1; x.fib = v.fiber; x.obs = 0;
          if ( v.b == 'S' ) { x.slot = v.d / 1000; x.ev = v.d % 1000; }
          auto o = opById.find( v.a >= 1000 && v.a < 100000 && v.b == 'E' ? v.a % 1000 : v.a ); x.op = o == opById.end() ? 0 : o->second;
          int id = int( u.size() );
          if ( byId.count( v.a ) ) bad( "dup-item", "the work unit that submits %d was executed twice", v.a );
          byId[ v.a ] = id; u.push_back( x );
          if ( x.kind == 'E' ) evUnit[ std::make_pair( x.slot, x.ev ) ] = id;
          if ( x.kind == 'C' ) { SlotInfo s; s.sch = x.sch; s.type = x.op ? x.op->b : 0; slot[ x.slot ] = s; }
          else if ( x.kind == 'I' ) slot[ x.slot ].I.push_back( id );
          else if ( x.kind == 'X' ) slot[ x.slot ].X.push_back( id );
          else if ( x.kind == 'D' ) slot[ x.slot ].D.push_back( id );
          else if ( x.kind == 'T' ) sc[ x.sch ].T.push_back( id );
          break;
        }
        case QR:
        {
          auto j = byId.find( v.a ); if ( j == byId.end() ) break;
          Unit & x = u[ j->second ]; x.ret = v.seq; x.code = v.b;
          if ( v.b == 1 )
          {
            anyFault = true;
            if ( x.obs ) bad( "fault-executed", "%s %d was executed although submitting it failed", k( x ), x.id );
          }
          break;
        }
        case XB:
        {
          auto j = byId.find( v.a );
          if ( j == byId.end() ) bad( "early-item", "item %d was executed before it was queued", v.a );
          observe( j->second, v ); ++sc[ u[ j->second ].sch ].xb;
          break;
        }
        case XE: { auto j = byId.find( v.a ); if ( j != byId.end() ) sc[ u[ j->second ].sch ].window = v.seq; break; }
        case XT:
        {
          thrown.insert( v.a );
          for ( Sched & s : sc ) if ( s.runner == v.fiber ) s.lastThrow = v.a;
          if ( v.a >= 300000 && slot.count( v.a - 300000 ) ) slot[ v.a - 300000 ].threw = true;
          break;
        }
        case RB:
        {
          Sched & s = sc[ v.a ];
          s.runner = v.fiber; s.n = v.b; s.opid = v.c; s.begin = s.window = v.seq; s.xb = 0; s.observed = 0; s.lastThrow = 0;
          s.termAtBegin = v.d != 0;
          if ( s.term != ( v.d != 0 ) ) bad( "terminate-flag", "scheduler %d reports terminated()==%d between run calls, was %d after the last one", v.a, v.d, int( s.term ) );
          break;
        }
        case RR:
        {
          Sched & s = sc[ v.a ]; int count = v.b; bool term = v.c != 0;
          if ( s.lastThrow ) bad( "swallowed", "the exception thrown by unit %d did not leave the run call", s.lastThrow );
          if ( s.termAtBegin && ( count || !term ) ) bad( "count", "run call on a terminated scheduler returned %d", count );
          if ( s.n && count > s.n ) bad( "count", "run call with limit %d reports %d items", s.n, count );
          if ( count < s.observed ) bad( "count", "run call reports %d items but executed at least %d", count, s.observed );
          if ( s.onlyQ && count != s.xb + ( term && !s.termAtBegin ? 1 : 0 ) )
            bad( "count", "run call reports %d items but executed %d", count, s.xb + ( term && !s.termAtBegin ? 1 : 0 ) );
          if ( term && !s.termAtBegin )
          {
            s.term = true; s.termSeq = v.seq;
            bool any = false; for ( int t : s.T ) if ( u[ t ].code != 1 ) any = true;
            if ( !any ) bad( "terminate-flag", "scheduler %d is terminated although nobody asked for it", v.a );
          }
          if ( !term && ( s.n == 0 || count < s.n ) )
          {
            if ( p.wait[ v.a ] ) bad( "blocking-returned", "the run call of a blocking worker returned %d although it was neither terminated nor the limit %d reached", count, s.n );
            for ( Unit & x : u ) if ( x.sch == v.a && ( x.kind == 'Q' || x.kind == 'T' ) && x.code == 0 && x.ret < s.window && !x.obs )
              bad( x.kind == 'Q' ? "left-item" : "left-terminate", "the run call of scheduler %d returned %d as if the queue were empty, but %s %d had been queued before", v.a, count, k( x ), x.id );
          }
          s.sum += count; s.runner = -1; s.everRan = true;
          break;
        }
        case RX:
        {
          Sched & s = sc[ v.a ]; ++s.rx; anyFault = true;
          if ( v.b == 3 ) bad( "stray-exception", "a run call threw bad_alloc although no allocation failed" );
          if ( v.b == 1 )
          {
            if ( !s.lastThrow && !findThrower( v ) ) bad( "stray-exception", "a run call threw exception %d, which no item threw in it", v.c );
          }
          if ( v.b == 2 )
          {
            ++s.rxAlloc;
            for ( auto & x : slot ) if ( x.second.sch == v.a && x.second.type == 7 ) x.second.lenient = true;
          }
          s.runner = -1;
          break;
        }
        case TF: bad( "terminate-flag", "terminated() is already true while item %d runs", v.a );
        case PC:
        {
          auto j = byId.find( v.a ); if ( j == byId.end() || u[ j->second ].kind != 'C' ) bad( "early-request", "processor %d constructed without request", v.a );
          observe( j->second, v ); slot[ v.a ].pc = v.seq; break;
        }
        case BADARG: bad( "lifecycle", "processor %d was constructed with wrong arguments, context or handle (%d)", v.a, v.b );
        case PD:
        {
          checkRunner( v.a, v, "destruction" ); SlotInfo & s = slot[ v.a ];
          if ( !s.pc ) bad( "lifecycle", "processor %d destructed but never constructed", v.a );
          if ( s.pd ) bad( "lifecycle", "processor %d destructed twice", v.a );
          s.pd = v.seq;
          if ( v.seq < drain && !s.threw )
          {
            bool any = false; for ( int d : s.D ) if ( u[ d ].code != 1 ) any = true;
            if ( allocFailedNext( i ) ) { s.threw = true; break; }   // its creation failed half-way
            if ( !any ) bad( "lifecycle", "processor %d was destructed although nobody asked for it", v.a );
            if ( s.D.size() == 1 ) observe( s.D[ 0 ], v );
          }
          break;
        }
        case PI:
        {
          checkRunner( v.a, v, "initiation" ); SlotInfo & s = slot[ v.a ]; alive( s, v );
          if ( std::size_t( s.nPI ) >= s.I.size() ) bad( "dup-request", "processor %d initiated more often than requested", v.a );
          observe( s.I[ s.nPI++ ], v ); break;
        }
        case PT:
        {
          checkRunner( v.a, v, "termination" ); SlotInfo & s = slot[ v.a ]; alive( s, v );
          if ( std::size_t( s.nPT ) >= s.X.size() ) bad( "dup-request", "processor %d terminated more often than requested", v.a );
          observe( s.X[ s.nPT++ ], v ); break;
        }
        case PE:
        {
          checkRunner( v.a, v, "event" ); alive( slot[ v.a ], v );
          int x = eventUnit( v.a, v.b ); if ( x < 0 ) bad( "misdelivered-event", "event %d was delivered to processor %d, which it was not sent to", v.b, v.a );
          observe( x, v ); break;
        }
        case AI: case AX: case AD: case AR: case AP: case AU: checkRunner( v.a, v, "machine activity" ); break;
        case PHASE: if ( v.a == 2 ) sc[ v.b ].asleep.push_back( std::make_pair( v.seq, 0 ) ); else if ( v.a == 3 ) phase3 = v.seq; break;
        case DRAIN: drain = v.seq; break;
        default: break;
      }
    }
  }
  bool findThrower( const rt::Ev & x )
  {
    // an event with what == 4 throws with its own id
    auto o = opById.find( x.c % 1000 ); return o != opById.end() && ( o->second->kind == 'H' || ( o->second->kind == 'E' && o->second->b == 4 ) );
  }
  void alive( SlotInfo & s, const rt::Ev & v )
  {
    if ( !s.pc || s.threw ) bad( "lifecycle", "request executed for processor %d, which is not constructed", v.a );
    if ( s.pd ) bad( "lifecycle", "request executed for processor %d after it was destructed", v.a );
  }

  // does the run call in which entry i was logged end with an injected allocation failure?
  bool allocFailedNext( std::size_t i )
  {
    for ( std::size_t j = i + 1; j < n; ++j ) if ( e[ j ].fiber == e[ i ].fiber && ( e[ j ].kind == RX || e[ j ].kind == RR ) )
      return e[ j ].kind == RX && e[ j ].b == 2;
    return false;
  }
  // --- asynchronous machines
  void walkMachine( int sl )
  {
    struct Item { bool ev; int id, n; };
    SlotInfo & info = slot[ sl ];
    bool constructed = false, running = false, inA = false, exiting = false, mustAD = false, dead = false, unknown = false;
    std::deque< Item > posted; std::vector< int > deferred; int nI = 0;
    auto item = [&]( const rt::Ev & v, bool ev, int id, int m ) {
      if ( posted.empty() || posted.front().ev != ev || posted.front().id != id || ( !ev && posted.front().n != m ) ) return false;
      posted.pop_front(); (void)v; return true; };
    for ( std::size_t i = 0; i < n; ++i )
    {
      const rt::Ev & v = e[ i ];
      if ( v.kind == RX && v.a == info.sch && v.b == 2 ) { unknown = true; mustAD = exiting = false; continue; }
      if ( v.kind != PC && v.kind != PD && ( v.kind < AR || v.kind > AD ) ) continue;
      if ( v.a != sl ) continue;
      if ( mustAD && v.kind != AD ) bad( "machine", "machine %d: not torn down after an exception", sl );
      if ( exiting && v.kind != AD ) bad( "machine", "machine %d: state exited but not destructed", sl );
      switch ( v.kind )
      {
        case PC: constructed = true; break;
        case PD:
          if ( !posted.empty() && !unknown ) bad( "run-to-completion", "machine %d destructed while %zu posted events wait", sl, posted.size() );
          dead = true; break;
        case AI:
        {
          if ( dead ) bad( "machine", "machine %d initiated after destruction", sl );
          if ( !unknown && ( running || !posted.empty() ) ) bad( "run-to-completion", "machine %d initiated in the middle of processing", sl );
          running = true; inA = true; posted.clear(); deferred.clear(); Item x = { false, 0, 0 }; posted.push_back( x );
          while ( std::size_t( nI ) < info.I.size() && u[ info.I[ nI ] ].code == 1 ) ++nI;
          if ( std::size_t( nI ) >= info.I.size() ) bad( "dup-amrequest", "machine %d initiated more often than requested", sl );
          if ( !unknown ) { observeAM( info.I[ nI ], v ); } ++nI;
          break;
        }
        case AX:
          if ( !unknown && ( !running || !posted.empty() ) ) bad( "run-to-completion", "machine %d terminated in the middle of processing", sl );
          if ( dead ) bad( "machine", "machine %d: exit() called while being destructed", sl );
          exiting = true; break;
        case AD:
          if ( !unknown && !exiting && !mustAD && !dead && !allocFailedNext( i ) ) bad( "machine", "machine %d: state destructed without exit()", sl );
          exiting = mustAD = false; running = false; posted.clear(); deferred.clear(); break;
        case AR:
        {
          if ( dead ) bad( "machine", "machine %d reacts after its destruction", sl );
          int x = eventUnit( sl, v.b );
          if ( x < 0 ) bad( "misdelivered-amevent", "event %d reached machine %d, which it was not sent to", v.b, sl );
          if ( unknown ) { if ( !u[ x ].obs ) u[ x ].obs = v.seq; break; }
          if ( !running ) bad( "machine", "machine %d reacts although it does not run", sl );
          if ( !posted.empty() ) { if ( !item( v, true, v.b, 0 ) ) bad( "run-to-completion", "machine %d processes event %d before its own posted events", sl, v.b ); }
          else observeAM( x, v );
          bool ext = u[ x ].op && u[ x ].op->b < 100;
          int kk = !ext ? 0 : u[ x ].op->c;
          switch ( v.c )
          {
            case 0: for ( int q = 0; q < kk; ++q ) { Item y = { false, v.b, q }; posted.push_back( y ); } break;
            case 1:
              if ( inA ) { std::deque< Item > q; for ( int d : deferred ) { Item y = { true, d, 0 }; q.push_back( y ); } q.insert( q.end(), posted.begin(), posted.end() ); posted = q; deferred.clear(); }
              inA = !inA; break;
            case 2: if ( ( v.d == 1 ) != inA ) bad( "machine", "machine %d handles event %d in the wrong state", sl, v.b ); if ( v.d ) deferred.push_back( v.b ); break;
            case 4: mustAD = true; break;
            case 5: if ( thrown.count( v.b ) ) mustAD = true; break;
          }
          break;
        }
        case AP: if ( unknown ) break;
          if ( !running || !item( v, false, v.b, v.c ) )
            bad( "run-to-completion", "machine %d processes posted event %d.%d out of turn", sl, v.b, v.c );
          break;
        case AU:
        {
          int x = eventUnit( sl, v.b ); if ( x < 0 ) bad( "misdelivered-amevent", "event %d reached machine %d, which it was not sent to", v.b, sl );
          if ( unknown ) { if ( !u[ x ].obs ) u[ x ].obs = v.seq; break; }
          if ( running ) bad( "machine", "machine %d: event %d unconsumed although the machine runs", sl, v.b );
          observeAM( x, v ); break;
        }
      }
    }
    if ( constructed && !info.threw && !unknown && !posted.empty() && !dead ) bad( "run-to-completion", "machine %d: posted events never processed", sl );
  }
  // machine units are observed in a second pass: fix up the scheduler's order afterwards
  void observeAM( int ui, const rt::Ev & v )
  {
    Unit & x = u[ ui ];
    if ( x.obs ) bad( cl( "dup", x ), "%s %d was processed twice by machine %d", k( x ), x.id, x.slot );
    if ( x.code == 1 ) bad( "fault-executed", "%s %d was processed although submitting it had failed", k( x ), x.id );
    if ( x.inv > v.seq ) bad( cl( "early", x ), "%s %d processed before it was sent", k( x ), x.id );
    if ( sc[ x.sch ].termSeq < v.seq ) bad( "ran-after-termination", "%s %d was processed after scheduler %d reported termination", k( x ), x.id, x.sch );
    x.obs = v.seq; sc[ x.sch ].O.push_back( ui );
  }

  void finish()
  {
    for ( auto & s : slot ) if ( s.second.type == 7 && s.second.pc ) walkMachine( s.first );
    for ( int si = 0; si < p.nSched; ++si )
    {
      Sched & s = sc[ si ];
      std::vector< int > & O = s.O;
      std::sort( O.begin(), O.end(), [&]( int a, int b ) { return u[ a ].obs < u[ b ].obs; } );
      // pairwise order: nobody observed later may have been completely queued before
      u32 best = INF; int bestU = -1;
      for ( std::size_t i = O.size(); i-- > 0; )
      {
        Unit & a = u[ O[ i ] ];
        if ( bestU >= 0 && best < a.inv )
        { Unit & b = u[ bestU ]; bad( cl( "order", a.kind == 'Q' ? b : a ), "%s %d was queued before %s %d but executed after it (scheduler %d)", k( b ), b.id, k( a ), a.id, si ); }
        if ( a.ret < best ) { best = a.ret; bestU = O[ i ]; }
      }
      for ( int ui : O ) for ( int t : s.T ) if ( !s.term && u[ t ].ret < u[ ui ].inv && u[ t ].code == 0 )
        bad( "terminate-ignored", "%s %d was executed although termination had been queued before it", k( u[ ui ] ), u[ ui ].id );
      // asleep at quiescence
      for ( auto & a : s.asleep ) for ( Unit & x : u )
        if ( x.sch == si && x.code == 0 && x.ret < a.first && ( !x.obs || x.obs > a.first ) && !( x.obs == 0 && legitMissing( x ) ) && ( x.obs || x.kind == 'Q' || x.kind == 'T' ) )
          bad( "lost-wakeup", "the worker of scheduler %d sleeps while %s %d is queued", si, k( x ), x.id );
      // nothing may be missing, except behind a termination
      std::vector< int > missing;
      for ( std::size_t i = 0; i < u.size(); ++i )
      {
        Unit & x = u[ i ];
        if ( x.sch != si || x.code != 0 || x.obs || x.kind == 'T' || legitMissing( x ) ) continue;
        if ( x.kind == 'D' && slot[ x.slot ].D.size() > 1 && slot[ x.slot ].pd && slot[ x.slot ].pd < drain ) continue;
        missing.push_back( int( i ) );
      }
      if ( !s.term )
      {
        if ( !missing.empty() ) { Unit & x = u[ missing[ 0 ] ]; bad( cl( "lost", x ), "%s %d was queued but never executed (scheduler %d, processor %d)", k( x ), x.id, si, x.slot ); }
        for ( int t : s.T ) if ( u[ t ].code == 0 ) bad( "terminate-ignored", "termination %d of scheduler %d was queued but never took effect", u[ t ].id, si );
        if ( !s.rx )
        {
          long want = 0; for ( Unit & x : u ) if ( x.sch == si && x.code == 0 ) ++want;
          bool pending = false; for ( Unit & x : u ) if ( x.sch == si && x.code == -1 ) pending = true;
          if ( !pending && want != s.sum ) bad( "count", "the run calls of scheduler %d report %ld items in total, %ld were queued", si, s.sum, want );
        }
      }
      else
      {
        std::string why; bool ok = false;
        for ( int t : s.T )
        {
          if ( u[ t ].code == 1 ) continue;
          const Unit * w = 0; const char * how = 0;
          for ( int ui : O ) if ( u[ t ].ret < u[ ui ].inv ) { w = &u[ ui ]; how = "was executed behind"; break; }
          if ( !w ) for ( int m : missing ) if ( u[ m ].ret < u[ t ].inv ) { w = &u[ m ]; how = "was not executed before"; break; }
          if ( !w ) { ok = true; break; }
          char b[ 200 ]; std::snprintf( b, sizeof b, "%s %d %s termination %d of scheduler %d", k( *w ), w->id, how, u[ t ].id, si ); why = b;
        }
        if ( !ok && !missing.empty() )
        {
          // which one: if even the last termination comes after a missing unit, the unit is lost
          bad( "terminate-turn", "%s", why.c_str() );
        }
        if ( !ok ) bad( "terminate-turn", "%s", why.c_str() );
      }
    }
    for ( auto & s : slot )
    {
      SlotInfo & x = s.second; if ( !x.pc ) continue;
      if ( x.threw && x.type == 7 ) continue;
      if ( !x.pd ) bad( "lifecycle", "processor %d was never destructed", s.first );
    }
  }
};

std::vector< rt::Ev > logOf( int fiber, int asFiber )
{
  std::size_t n; const rt::Ev * e = rt::events( n ); std::vector< rt::Ev > r; (void)asFiber;
  for ( std::size_t i = 0; i < n; ++i ) if ( e[ i ].fiber == fiber && e[ i ].kind == MT ) r.push_back( e[ i ] );
  return r;
}

void ( *const mains[] )( void * ) = { mainFiber0, mainFiber1, mainFiber2, simSingle3, simSingle4 };
void ( *const masses[] )( void * ) = { massFiber0, massFiber1, massFiber2 };
u64 g_hash; rt::Stats g_stats;
struct Totals { rt::Stats s; u64 runs = 0, limits = 0, events = 0, mmode = 0, mass = 0, single = 0, ops = 0, units = 0, faultsInjected = 0, thrown = 0; } tot;

void addStats()
{
  const rt::Stats & s = rt::stats(); rt::Stats & t = tot.s;
  t.syncPoints += s.syncPoints; t.switches += s.switches; t.preemptions += s.preemptions; t.memAccesses += s.memAccesses; t.memPreempts += s.memPreempts;
  t.atomics += s.atomics; t.spurious += s.spurious; t.allocFaults += s.allocFaults; t.allocs += s.allocs; t.condWaits += s.condWaits; t.notifies += s.notifies;
  t.notifyNoWaiter += s.notifyNoWaiter; t.contended += s.contended; t.initFaults += s.initFaults; t.reused += s.reused;
  std::size_t n; const rt::Ev * e = rt::events( n ); tot.events += n; ++tot.runs;
  for ( std::size_t i = 0; i < n; ++i ) { if ( e[ i ].kind == XT ) ++tot.thrown; else if ( e[ i ].kind == QI ) ++tot.units; }
}

Result simulate( Program & p, const rt::SchedConfig & c, std::vector< rt::Deviation > * devOut )
{
  Result r; g_prog = &p;
  rt::SchedConfig cc = c; cc.reuse = p.reuse != 0; if ( p.mode == 2 ) { cc.strategy = 2; cc.memDen = cc.spuriousDen = 0; cc.maxSteps = 20000000; cc.maxAccesses = 100000000; }
  rt::Outcome o = rt::run( cc, p.mode == 1 ? mainFiberM : p.mode == 2 ? masses[ p.stype ] : mains[ p.stype ], 0 );
  r.hash = rt::logHash(); g_hash = rt::stats().schedHash;
  addStats(); g_stats = rt::stats();
  r.faulty = g_stats.allocFaults || g_stats.initFaults; { std::size_t n; const rt::Ev * e = rt::events( n ); for ( std::size_t i = 0; i < n; ++i ) if ( e[ i ].kind == XT || e[ i ].kind == RX ) r.faulty = true; }
  if ( devOut ) { std::size_t n; const rt::Deviation * d = rt::deviations( n ); devOut->assign( d, d + n ); }
  if ( o == rt::Violated ) { r.bad = true; r.cls = rt::violationClass(); r.text = rt::violationText(); return r; }
  if ( o == rt::StepLimit )
  { r.bad = true; r.cls = "no-progress"; r.text = "the run did not end within the step bound"; return r; }
  if ( p.stype > 2 ) ++tot.single;
  if ( p.mode == 0 )
  {
    try { Checker k( p ); k.walk(); k.finish(); }
    catch ( const Fail & f ) { r.bad = true; r.cls = f.cls; r.text = f.text; }
  }
  else if ( p.mode == 2 ) ++tot.mass;
  else
  {
    ++tot.mmode;
    std::vector< std::vector< rt::Ev > > logs;
    for ( int f = 1; f <= p.nClients; ++f ) logs.push_back( logOf( f, f ) );
    for ( int f = 1; f <= p.nClients && !r.bad; ++f )
    {
      Program q; q.mode = 1; q.nSched = 0; q.nClients = p.nClients; q.nShared = p.nShared; q.ops[ f ] = p.ops[ f ];
      rt::SchedConfig d; d.strategy = 2; d.seed = 1; g_prog = &q;
      rt::Outcome oo = rt::run( d, mainFiberM, 0 );
      g_prog = &p;
      if ( oo != rt::Ok ) { r.bad = true; r.cls = oo == rt::Violated ? rt::violationClass() : "no-progress"; r.text = std::string( "alone: " ) + rt::violationText(); break; }
      std::vector< rt::Ev > s = logOf( f, f );
      std::size_t i = 0; while ( i < s.size() && i < logs[ f - 1 ].size() && !std::memcmp( &s[ i ].a, &logs[ f - 1 ][ i ].a, 16 ) ) ++i;
      if ( i < s.size() || i < logs[ f - 1 ].size() )
      {
        char b[ 300 ]; rt::Ev z; std::memset( &z, 0, sizeof z ); rt::Ev x = i < logs[ f - 1 ].size() ? logs[ f - 1 ][ i ] : z, y = i < s.size() ? s[ i ] : z;
        std::snprintf( b, sizeof b, "the machine of thread %d behaves differently beside others: step %zu is %d(%d,%d,%d), alone it is %d(%d,%d,%d)", f, i, x.a, x.b, x.c, x.d, y.a, y.b, y.c, y.d );
        r.bad = true; r.cls = "interference"; r.text = b;
      }
    }
  }
  return r;
}

// ---------------------------------------------------------------------------------------------- plans
struct Plan { Program p; std::vector< rt::Deviation > dev; std::string note; };
void writeOp( FILE * f, const char * tag, int key, const Op & o )
{ std::fprintf( f, "%s %d %c %d %d %d %d %d %d\n", tag, key, o.kind, o.id, o.sch, o.a, o.b, o.c, o.fail ); }
void save( const char * path, const Plan & x, const Result & r )
{
  FILE * f = std::fopen( path, "w" ); if ( !f ) { std::perror( path ); std::exit( 2 ); }
  const Program & p = x.p;
  std::fprintf( f, "# engine async; property %s; violation %s: %s\n", p.prop.c_str(), r.cls.c_str(), r.text.c_str() );
  if ( !x.note.empty() ) std::fprintf( f, "# %s\n", x.note.c_str() );
  std::fprintf( f, "expect %s %016llx\n", r.cls.c_str(), (unsigned long long)r.hash );
  std::fprintf( f, "prop %s\nconf %d %d %d %d %d %d %d %d %d %d\n", p.prop.c_str(), p.mode, p.stype, p.nSched, p.wait[ 0 ], p.wait[ 1 ], p.wait[ 2 ], p.nClients, p.initFail, p.nShared, p.reuse );
  for ( int i = 0; i < 16; ++i ) for ( const Op & o : p.ops[ i ] ) writeOp( f, "op", i, o );
  for ( auto & b : p.body ) for ( const Op & o : b.second ) writeOp( f, "body", b.first, o );
  for ( const rt::Deviation & d : x.dev ) std::fprintf( f, "dev %c %d %llu %d\n", d.kind, d.fiber, (unsigned long long)d.n, d.v );
  std::fclose( f );
}
bool load( const char * path, Plan & x, std::string & cls, u64 & hash )
{
  FILE * f = std::fopen( path, "r" ); if ( !f ) return false;
  char line[ 1000 ], w[ 64 ];
  while ( std::fgets( line, sizeof line, f ) )
  {
    if ( line[ 0 ] == '#' || std::sscanf( line, "%63s", w ) != 1 ) continue;
    std::string k = w; Program & p = x.p;
    if ( k == "expect" ) { char c[ 64 ]; unsigned long long h; std::sscanf( line, "%*s %63s %llx", c, &h ); cls = c; hash = h; }
    else if ( k == "prop" ) { std::sscanf( line, "%*s %63s", w ); p.prop = w; }
    else if ( k == "conf" ) std::sscanf( line, "%*s %d %d %d %d %d %d %d %d %d %d", &p.mode, &p.stype, &p.nSched, &p.wait[ 0 ], &p.wait[ 1 ], &p.wait[ 2 ], &p.nClients, &p.initFail, &p.nShared, &p.reuse );
    else if ( k == "op" || k == "body" )
    {
      Op o; int key; std::sscanf( line, "%*s %d %c %d %d %d %d %d %d", &key, &o.kind, &o.id, &o.sch, &o.a, &o.b, &o.c, &o.fail );
      if ( k == "op" ) p.ops[ key ].push_back( o ); else p.body[ key ].push_back( o );
    }
    else if ( k == "dev" ) { rt::Deviation d; unsigned long long n; std::sscanf( line, "%*s %c %d %llu %d", &d.kind, &d.fiber, &n, &d.v ); d.n = n; x.dev.push_back( d ); }
  }
  std::fclose( f ); return true;
}

double now() { timespec t; clock_gettime( CLOCK_MONOTONIC, &t ); return t.tv_sec + t.tv_nsec * 1e-9; }

u64 curSeed; int outFd = 1; Plan * crashPlan; const char * crashFile;
void onCrash( int sig )
{
  if ( crashPlan )
  {
    Plan y = *crashPlan; std::size_t n; const rt::Deviation * d = rt::deviations( n ); y.dev.assign( d, d + n );
    Result r; r.bad = true; r.cls = sig == SIGALRM ? "hang" : "crash"; r.text = "the simulated program received signal " + std::to_string( sig );
    save( crashFile, y, r ); _exit( 1 );
  }
  char b[ 160 ]; int n = std::snprintf( b, sizeof b, "FAIL seed=%llu class=%s faulty=1 hash=0 text=the simulated program received signal %d\n", (unsigned long long)curSeed, sig == SIGALRM ? "hang" : "crash", sig );
  if ( write( outFd, b, n ) ) {}
  _exit( 1 );
}
void onAlarm( int s ) { onCrash( s ); }

// run one plan in a child process (it may crash); the outcome comes back through a file
Result isolated( Plan & x, const rt::SchedConfig & c, std::vector< rt::Deviation > * devOut, const char * tmp )
{
  unlink( tmp );
  pid_t pid = fork();
  if ( pid == 0 )
  {
    outFd = open( "/dev/null", O_WRONLY ); alarm( 10 ); crashPlan = &x; crashFile = tmp;
    std::vector< rt::Deviation > d; rt::setReplay( x.dev.data(), x.dev.size() );
    Result r = simulate( x.p, c, &d );
    Plan y = x; y.dev = d;
    save( tmp, y, r ); _exit( r.bad ? 1 : 0 );
  }
  int st; waitpid( pid, &st, 0 );
  Result r;
  Plan y; std::string cls; u64 h = 0;
  if ( access( tmp, R_OK ) == 0 && load( tmp, y, cls, h ) )
  {
    r.bad = WIFEXITED( st ) && WEXITSTATUS( st ) == 1; r.cls = cls; r.hash = h; if ( devOut ) *devOut = y.dev;
    FILE * f = std::fopen( tmp, "r" ); char line[ 1000 ]; if ( std::fgets( line, sizeof line, f ) ) { char * q = std::strstr( line, "violation " ); if ( q ) { char * t = std::strstr( q, ": " ); if ( t ) { r.text = t + 2; while ( !r.text.empty() && r.text.back() == '\n' ) r.text.pop_back(); } } } std::fclose( f );
  }
  else { r.bad = true; r.cls = WIFSIGNALED( st ) && WTERMSIG( st ) == SIGALRM ? "hang" : "crash"; r.text = "the simulated program crashed"; if ( devOut ) devOut->clear(); }
  unlink( tmp );
  return r;
}

void generate( u64 seed, const std::string & prop, Program & p ) { p.prop = prop; Gen g( seed, p, prop ); g.build(); rt::Rng r( seed * 11 + 5 ); p.reuse = r.chance( 1, 2 );
  for ( auto & v : p.ops ) for ( Op & o : v ) if ( o.kind == 'R' && r.chance( 1, 10 ) ) o.b = 1 + int( r.below( 5 ) );
  if ( prop == "C02" && p.stype < 3 && seed % 10000 == 1234 )
  { const int st = p.stype, n = int( r.below( 40 ) ); p = Program(); p.prop = prop; p.mode = 2; p.stype = st; p.reuse = 1; p.nSched = 1; p.nClients = 0; p.nShared = n; p.wait[ 0 ] = r.chance( 1, 2 ); }
}

int usage() { std::fprintf( stderr, "asim batch PROP START STRIDE SECONDS MAXRUNS | asim dump PROP SEED OUT | asim replay PLAN [-v] | asim minimise PLAN OUT SECONDS\n" ); return 2; }

void printLog()
{
  static const char * names[] = { "", "QI", "QR", "XB", "XE", "XT", "RB", "RR", "RX", "PC", "PD", "PI", "PE", "PT", "PU", "AR", "AP", "AU", "AI", "AX", "AD", "MT", "BADARG", "PHASE", "EMPTY", "SKIP", "DRAIN", "PX", "INITX", "AB", "TF" };
  std::size_t n; const rt::Ev * e = rt::events( n );
  for ( std::size_t i = 0; i < n; ++i ) std::printf( "  %5u fiber %d %-5s %d %d %d %d\n", e[ i ].seq, e[ i ].fiber, names[ e[ i ].kind ], e[ i ].a, e[ i ].b, e[ i ].c, e[ i ].d );
}

// schedule replayed from its deviations: for a crash no deviation list exists, so the seed's schedule is used
rt::SchedConfig replayConf() { rt::SchedConfig c; c.replay = true; c.strategy = 2; return c; }
} // namespace

int main( int argc, char ** argv )
{
  if ( argc < 3 ) return usage();
  std::string mode = argv[ 1 ];
  rt::installCrashHandler( &onCrash );
  signal( SIGALRM, &onAlarm );
  if ( mode == "batch" && argc >= 7 )
  {
    std::string prop = argv[ 2 ]; u64 start = std::strtoull( argv[ 3 ], 0, 10 ), stride = std::strtoull( argv[ 4 ], 0, 10 );
    double limit = now() + std::atof( argv[ 5 ] ); u64 maxRuns = std::strtoull( argv[ 6 ], 0, 10 );
    std::unordered_set< u64 > seen, scheds; int rc = 0; u64 trivial = 0; std::FILE * hf = argc > 7 ? std::fopen( argv[ 7 ], "ab" ) : 0; double t0 = now();
    u64 limitRuns = maxRuns ? maxRuns : ~0ull, seedsDone = 0;
    for ( u64 k = 0; k < limitRuns; ++k )
    {
      if ( ( k & 15 ) == 0 && now() > limit ) break;
      u64 seed = curSeed = start + k * stride;
      Program p; generate( seed, prop, p );
      rt::SchedConfig c = schedOf( seed, p );
      alarm( 20 );
      Result r = simulate( p, c, 0 );
      ++seedsDone;
      if ( r.bad )
      {
        std::printf( "FAIL seed=%llu class=%s faulty=%d hash=%016llx text=%s\n", (unsigned long long)seed, r.cls.c_str(), r.faulty, (unsigned long long)r.hash, r.text.c_str() );
        rc = 1; break;
      }
      const bool dull = g_stats.preemptions + g_stats.memPreempts + g_stats.spurious == 0 && !r.faulty;
      if ( seen.size() < 4000000 && seen.insert( r.hash ).second && hf && !dull ) std::fwrite( &r.hash, 8, 1, hf );
      if ( scheds.size() < 4000000 ) scheds.insert( g_hash );
      if ( dull ) ++trivial;
    }
    alarm( 0 ); if ( hf ) std::fclose( hf );
    const rt::Stats & s = tot.s;
    std::printf( "STATS {\"runs\":%llu,\"seeds\":%llu,\"distinct_histories\":%zu,\"distinct_schedules\":%zu,\"runs_without_preemption_or_fault\":%llu,\"wall\":%.2f,\"sync_points\":%llu,\"switches\":%llu,"
      "\"preemptions\":%llu,\"memory_accesses\":%llu,\"memory_preemptions\":%llu,\"atomics\":%llu,\"spurious_wakeups\":%llu,\"allocation_failures\":%llu,\"allocations\":%llu,"
      "\"cond_waits\":%llu,\"notifies\":%llu,\"notifies_without_waiter\":%llu,\"contended_locks\":%llu,\"init_failures\":%llu,\"memory_blocks_reused\":%llu,\"log_events\":%llu,\"private_machine_runs\":%llu,\"mass_runs\":%llu,\"single_threaded_runs\":%llu,\"requests\":%llu,\"throwing_items\":%llu}\n",
      (unsigned long long)tot.runs, (unsigned long long)seedsDone, seen.size(), scheds.size(), (unsigned long long)trivial, now() - t0, (unsigned long long)s.syncPoints, (unsigned long long)s.switches,
      (unsigned long long)s.preemptions, (unsigned long long)s.memAccesses, (unsigned long long)s.memPreempts, (unsigned long long)s.atomics, (unsigned long long)s.spurious, (unsigned long long)s.allocFaults, (unsigned long long)s.allocs,
      (unsigned long long)s.condWaits, (unsigned long long)s.notifies, (unsigned long long)s.notifyNoWaiter, (unsigned long long)s.contended, (unsigned long long)s.initFaults, (unsigned long long)s.reused, (unsigned long long)tot.events, (unsigned long long)tot.mmode, (unsigned long long)tot.mass, (unsigned long long)tot.single, (unsigned long long)tot.units, (unsigned long long)tot.thrown );
    return rc;
  }
  if ( mode == "one" && argc >= 4 )
  {
    std::string prop = argv[ 2 ]; u64 seed = curSeed = std::strtoull( argv[ 3 ], 0, 10 ); alarm( 20 );
    Program p; generate( seed, prop, p ); rt::SchedConfig c = schedOf( seed, p );
    Result r = simulate( p, c, 0 );
    if ( argc > 4 ) printLog();
    std::printf( "%s seed=%llu class=%s faulty=%d hash=%016llx text=%s\n", r.bad ? "FAIL" : "PASS", (unsigned long long)seed, r.cls.c_str(), r.faulty, (unsigned long long)r.hash, r.text.c_str() );
    return r.bad;
  }
  if ( mode == "dump" && argc >= 5 )
  {
    std::string prop = argv[ 2 ]; u64 seed = curSeed = std::strtoull( argv[ 3 ], 0, 10 );
    Plan x; generate( seed, prop, x.p ); rt::SchedConfig c = schedOf( seed, x.p );
    std::string tmp = std::string( argv[ 4 ] ) + ".tmp";
    std::vector< rt::Deviation > d; Result r = isolated( x, c, &d, tmp.c_str() );
    x.dev = d; x.note = "from seed " + std::string( argv[ 3 ] );
    save( argv[ 4 ], x, r );
    std::printf( "%s class=%s hash=%016llx\n", r.bad ? "FAIL" : "PASS", r.cls.c_str(), (unsigned long long)r.hash );
    return 0;
  }
  if ( mode == "replay" )
  {
    Plan x; std::string cls; u64 h = 0; if ( !load( argv[ 2 ], x, cls, h ) ) { std::perror( argv[ 2 ] ); return 2; }
    alarm( 60 );
    rt::setReplay( x.dev.data(), x.dev.size() );
    Result r = simulate( x.p, replayConf(), 0 );
    if ( argc > 3 ) printLog();
    std::printf( "%s class=%s hash=%016llx text=%s\n", r.bad ? "FAIL" : "PASS", r.cls.c_str(), (unsigned long long)r.hash, r.text.c_str() );
    return r.bad ? 1 : 0;
  }
  if ( mode == "minimise" && argc >= 5 )
  {
    Plan x; std::string cls; u64 h = 0; if ( !load( argv[ 2 ], x, cls, h ) ) { std::perror( argv[ 2 ] ); return 2; }
    double limit = now() + std::atof( argv[ 4 ] ); std::string tmp = std::string( argv[ 3 ] ) + ".tmp";
    std::vector< rt::Deviation > d; Result best = isolated( x, replayConf(), &d, tmp.c_str() );
    if ( !best.bad ) { std::printf( "NOREPRO\n" ); return 3; }
    std::string want = best.cls;
    if ( !d.empty() ) x.dev = d;
    u64 probe = 1;
    auto still = [&]( Plan & y, int searches ) {
      std::vector< rt::Deviation > dd; Result r = isolated( y, replayConf(), &dd, tmp.c_str() );
      if ( r.bad && r.cls == want ) { if ( !dd.empty() || y.dev.empty() ) y.dev = dd; best = r; return true; }
      for ( int i = 0; i < searches && now() < limit; ++i )
      {
        rt::SchedConfig c = schedOf( ++probe, y.p ); r = isolated( y, c, &dd, tmp.c_str() );
        if ( r.bad && r.cls == want )
        {
          Plan z = y; z.dev = dd; std::vector< rt::Deviation > d2; Result r2 = isolated( z, replayConf(), &d2, tmp.c_str() );
          if ( r2.bad && r2.cls == want ) { y.dev = dd; best = r2; return true; }
        }
      }
      return false; };
    bool progress = true;
    while ( progress && now() < limit )
    {
      progress = false;
      for ( int f = 15; f >= 0 && now() < limit; --f ) for ( std::size_t chunk = x.p.ops[ f ].size(); chunk >= 1; chunk /= 2 )
        for ( std::size_t i = 0; i + chunk <= x.p.ops[ f ].size() && now() < limit; )
        { Plan y = x; y.p.ops[ f ].erase( y.p.ops[ f ].begin() + i, y.p.ops[ f ].begin() + i + chunk ); if ( still( y, 12 ) ) { x = y; progress = true; } else i += chunk; }
      std::vector< int > keys; for ( auto & b : x.p.body ) keys.push_back( b.first );
      for ( int k : keys )
      {
        if ( now() > limit ) break;
        { Plan y = x; y.p.body.erase( k ); if ( still( y, 8 ) ) { x = y; progress = true; continue; } }
        for ( std::size_t i = 0; i < x.p.body[ k ].size() && now() < limit; )
        { Plan y = x; y.p.body[ k ].erase( y.p.body[ k ].begin() + i ); if ( still( y, 6 ) ) { x = y; progress = true; } else ++i; }
      }
    }
    // then the schedule
    for ( std::size_t chunk = x.dev.size(); chunk >= 1 && now() < limit; chunk /= 2 )
      for ( std::size_t i = 0; i + chunk <= x.dev.size() && now() < limit; )
      {
        Plan y = x; y.dev.erase( y.dev.begin() + i, y.dev.begin() + i + chunk );
        std::size_t before = x.dev.size();
        if ( still( y, 0 ) && y.dev.size() < before ) x = y; else i += chunk;
      }
    std::vector< rt::Deviation > d3; Result fin = isolated( x, replayConf(), &d3, tmp.c_str() );
    x.note = "minimised: " + std::to_string( x.dev.size() ) + " schedule deviations";
    save( argv[ 3 ], x, fin );
    std::size_t nops = 0; for ( auto & v : x.p.ops ) nops += v.size(); for ( auto & b : x.p.body ) nops += b.second.size();
    std::printf( "MIN class=%s ops=%zu deviations=%zu hash=%016llx text=%s\n", fin.cls.c_str(), nops, x.dev.size(), (unsigned long long)fin.hash, fin.text.c_str() );
    return 0;
  }
  return usage();
}
