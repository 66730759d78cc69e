// Executable reference model of a synchronous machine.  It interprets the chart description and follows the recorded
// trace of one operation: at every point it knows what has to happen next and takes from the trace only what the
// environment decided (what a callback did) and the order in which the reaction search visits innermost states.
#ifndef MODEL_HPP
#define MODEL_HPP
#include "ssim.hpp"
#include <deque>
#include <map>
#include <string>
#include <vector>
#include <cstdio>
#include <cstdarg>

namespace ssim
{
struct Mismatch { std::string cls, text; std::size_t pos; };
struct Inconclusive { std::string why; bool here; std::size_t pos; }; // here: this way of reading the trace has no explanation, another may have
struct MExc { int id; };
struct MEv { int inst, type; bool man; };
enum Res { FWD, DIS, DEF };

extern bool g_quiet; // only whether something fails matters, not how it is described
inline std::string fmt( const char * f, ... )
{
  if ( g_quiet ) return std::string();
  char b[ 600 ]; va_list a; va_start( a, f ); std::vsnprintf( b, sizeof b, f, a ); va_end( a ); return b;
}
inline std::string sname( int s ) { return s == MACHINE || s == -1 ? std::string( "machine" ) : fmt( "S%d", s ); }
std::string recText( const Rec & r );

struct MState // everything that persists between operations
{
  signed char child[ MAXS ][ 6 ]; bool alive[ MAXS ], deferred[ MAXS ];
  int root, U; bool common, full; int trig;
  std::deque< MEv > q, dq;
  std::map< int, int > sh, dp; // key: context * 8 + region
  MState() : root( -1 ), U( -1 ), common( false ), full( true ), trig( 0 )
  { for ( int i = 0; i < MAXS; ++i ) { alive[ i ] = deferred[ i ] = false; for ( int r = 0; r < 6; ++r ) child[ i ][ r ] = -1; } }
};

class Model
{
  public:
    const ChartDesc * d; MState s;
    const std::vector< Rec > * t; const std::vector< Snap > * snaps; std::size_t pos;
    std::vector< int > choices, widths; std::size_t nchoice;
    const void * excPtr; std::vector< int > hold; int transDepth; int machineOp;
    // what the operation went through so far, for classifying a mismatch
    bool excSeen, handling, handledSeen, histEntry, fromQueue, inTerm, clearSeen, allocSeen; int curInst, curType;
    bool before[ 4 ]; // earlier: torn down by an exception, handled an exception, terminated or initiated again; another machine was used

    void begin( const std::vector< Rec > * trace, const std::vector< Snap > * sn )
    {
      t = trace; snaps = sn; pos = 0; resume();
      machineOp = 0; excSeen = handledSeen = histEntry = fromQueue = inTerm = clearSeen = allocSeen = false;
    }
    void resume() { nchoice = 0; excPtr = 0; hold.clear(); transDepth = 0; handling = false; curInst = 0; curType = -1; }
    int choose( int n )
    {
      if ( n <= 1 ) return 0;
      if ( nchoice == choices.size() ) { choices.push_back( 0 ); widths.push_back( n ); }
      widths[ nchoice ] = n;
      return choices[ nchoice++ ];
    }
    bool nextChoice() // advances to the next combination; false when all were tried
    {
      choices.resize( nchoice ); widths.resize( nchoice );
      while ( !choices.empty() ) { if ( ++choices.back() < widths.back() ) return true; choices.pop_back(); widths.pop_back(); }
      return false;
    }

    // ---- trace ------------------------------------------------------------------------------------------------------
    std::string flags() const
    {
      std::string f;
      if ( excSeen ) f += 'x';
      if ( handling || handledSeen ) f += 't';
      if ( histEntry ) f += 'h';
      if ( fromQueue ) f += 'q';
      if ( machineOp || inTerm ) f += 'm';
      if ( d->relax ) f += 'r';
      if ( clearSeen ) f += 'k';
      if ( allocSeen ) f += 'a';
      for ( int i = 0; i < 4; ++i ) if ( before[ i ] ) f += "uvwn"[ i ];
      return f;
    }
    static const char * area( int k )
    {
      switch ( k )
      {
        case R_CTOR: case R_EXIT: case R_DTOR: case R_ACT: return "conf";
        case R_REACT: case R_INACT: return "react";
        case R_UNC: return "unc";
        case R_COPY: return "copy";
        case R_POST: case R_POSTEND: case R_CLEAR: case R_SNAP: case R_END: return "flow";
        case R_AFAIL: return "alloc";
        default: return "end";
      }
    }
    void fail( const std::string & cls, const std::string & text ) { throw Mismatch{ cls, text, pos }; }
    void unexpected( int want, int a, int b )
    {
      if ( pos < t->size() && ( *t )[ pos ].k == R_AFAIL ) throw Inconclusive{ "allocation failed at a place the model has no effect for", true, pos };
      if ( g_quiet ) throw Mismatch{ std::string(), std::string(), pos };
      const int got = pos < t->size() ? ( *t )[ pos ].k : 0;
      std::string x = area( want ), y = area( got );
      Rec w = Rec(); w.k = want; w.a = a; w.b = b;
      std::string cls = x == y ? x : x < y ? x + "," + y : y + "," + x;
      // an event that is not the one to be processed next shows as a reaction to it
      if ( got && ( got == R_REACT || got == R_INACT || got == R_UNC ) && ( *t )[ pos ].ev != curInst && !( handling && ( *t )[ pos ].ev == EXCEV ) ) cls += ",order";
      fail( cls, "expected " + ( want ? recText( w ) : std::string( "the operation to end" ) ) + ", observed " + ( got ? recText( ( *t )[ pos ] ) : std::string( "the end of the operation" ) ) );
    }
    const Rec * peek() const { return pos < t->size() ? &( *t )[ pos ] : 0; }
    bool allocFails( int tag ) // an injected allocation failure is the next record and can belong to an allocation made here
    {
      const Rec * r = peek();
      if ( r == 0 || r->k != R_AFAIL ) return false;
      if ( r->a != tag && r->a != T_UNKNOWN ) return false;
      bool here = ( r->a == tag && tag != T_INTERNAL ) || choose( 2 ) == 0;
      if ( here ) { ++pos; allocSeen = excSeen = true; }
      return here;
    }
    void checkTrig( const Rec & r )
    {
      if ( r.trig == NA ) return;
      bool ok = r.trig == s.trig;
      if ( ok && s.trig == EXCEV ) { if ( excPtr == 0 ) excPtr = r.trigp; ok = excPtr == r.trigp; }
      if ( !ok ) fail( "trig", fmt( "%s: the triggering event is reported as %d, but it is %d (0 none, -2 exception event)", recText( r ).c_str(), r.trig, s.trig ) );
    }
    bool stable() const { return s.U == -1 && transDepth == 0; }
    void checkSnap( const Snap & n )
    {
      if ( n.bad ) fail( std::string( n.bad ).find( "type" ) != std::string::npos ? "snap,rtti" : "snap", n.bad );
      if ( n.terminated != ( s.root == -1 ) ) fail( "snap,terminated", n.terminated ? "terminated() is true although states are active" : "terminated() is false although nothing is active" );
      uint32_t mask = 0, seen = 0; int leaves = 0;
      for ( int i = 0; i < d->n; ++i ) if ( s.alive[ i ] ) { mask |= 1u << i; if ( d->s[ i ].nreg == 0 ) ++leaves; }
      for ( int i = 0; i < n.nleaf; ++i )
      {
        int x = n.leaf[ i ][ 0 ];
        if ( !s.alive[ x ] || d->s[ x ].nreg != 0 ) fail( "snap", sname( x ) + " is enumerated but is not an active innermost state" );
        if ( seen >> x & 1 ) fail( "snap", sname( x ) + " is enumerated twice" );
        seen |= 1u << x;
        int k = 0;
        for ( int y = x; y != -1; y = d->s[ y ].parent ) if ( n.leaf[ i ][ k++ ] != y ) fail( "snap", "the outer states of " + sname( x ) + " are wrong" );
        if ( n.leaf[ i ][ k ] != -1 ) fail( "snap", sname( x ) + " has too many outer states" );
      }
      if ( n.nleaf != leaves ) fail( "snap", fmt( "%d innermost states are enumerated, %d are active", n.nleaf, leaves ) );
      if ( !n.asked ) return;
      if ( n.down != mask || ( n.refs && n.downRef != mask ) ) fail( "snap", fmt( "state_downcast finds %x / %x, active are %x", n.down, n.downRef, mask ) );
      if ( n.cast != mask || ( n.refs && n.castRef != mask ) ) fail( "snap", fmt( "state_cast finds %x / %x, active are %x", n.cast, n.castRef, mask ) );
      for ( int m = 0; m < 3; ++m )
      {
        bool any = false; for ( int i = 0; i < d->n; ++i ) any = any || ( s.alive[ i ] && ( d->s[ i ].mix >> m & 1 ) );
        for ( int v = 0; v < ( n.refs ? 2 : 1 ); ++v )
        {
          int g = v ? n.mixRef[ m ] : n.mix[ m ];
          if ( ( g != -1 ) != any || ( g != -1 && ( !s.alive[ g ] || !( d->s[ g ].mix >> m & 1 ) ) ) ) fail( "snap", fmt( "state_cast to base type %d found %d", m, g ) );
        }
      }
    }
    void post() // R_POST is next
    {
      const Rec & p = ( *t )[ pos++ ];
      int inst = p.ev; bool failed = false; int copies = 0;
      while ( pos < t->size() && ( ( *t )[ pos ].k == R_COPY || ( *t )[ pos ].k == R_AFAIL ) )
      {
        const Rec & r = ( *t )[ pos++ ];
        if ( r.k == R_AFAIL ) { failed = allocSeen = excSeen = true; }
        else { if ( r.a != inst ) fail( "copy", "posting copied another event object" ); inst = r.ev; ++copies; }
      }
      if ( pos >= t->size() || ( *t )[ pos ].k != R_POSTEND ) { unexpected( R_POSTEND, 0, 0 ); }
      const Rec & e = ( *t )[ pos++ ];
      if ( ( e.a == 0 ) != failed ) fail( "alloc", failed ? "an allocation failed while an event was posted, but posting reported no failure" : "posting failed although no allocation did" );
      if ( failed ) return;
      if ( p.a && copies ) fail( "copy", "an event object that was already managed by a pointer was copied when posted" );
      if ( !p.a && copies != 1 ) fail( "copy", fmt( "a local event object was copied %d times when posted", copies ) );
      s.q.push_back( MEv{ inst, p.b, true } );
    }
    // consumes one callback; returns the option it ended with; throws what it threw
    int cb( int kind, int a, int b, int ev, bool trig )
    {
      const Rec * r = peek();
      if ( r == 0 || r->k != kind || r->a != a || r->b != b ) unexpected( kind, a, b );
      if ( kind == R_REACT || kind == R_ACT || kind == R_INACT || kind == R_UNC )
      {
        if ( r->ev != ev ) fail( r->ev == EXCEV || r->ev == STRANGE ? "event" : "event,order", recText( *r ) + fmt( ": event object %d was passed, expected %d", r->ev, ev ) );
        if ( ev == EXCEV ) { if ( excPtr == 0 ) excPtr = r->evp; if ( excPtr != r->evp ) fail( "event", "another exception event object was passed" ); }
      }
      if ( trig ) checkTrig( *r );
      ++pos;
      for ( ;; )
      {
        r = peek();
        if ( r == 0 ) fail( "flow", "a callback did not end" );
        if ( r->k == R_POST ) { post(); continue; }
        if ( r->k == R_SNAP ) { if ( stable() ) checkSnap( ( *snaps )[ r->a ] ); ++pos; continue; }
        if ( r->k == R_END )
        {
          ++pos;
          if ( r->c ) { excSeen = true; throw MExc{ r->c }; }
          return r->b;
        }
        fail( "flow", "inside a callback: " + recText( *r ) );
      }
    }

    // ---- configuration ----------------------------------------------------------------------------------------------
    int parent( int x ) const { return d->s[ x ].parent; }
    bool childless( int x ) const { for ( int r = 0; r < d->s[ x ].nreg; ++r ) if ( s.child[ x ][ r ] != -1 ) return false; return true; }
    bool held( int x ) const { for ( std::size_t i = 0; i < hold.size(); ++i ) if ( hold[ i ] == x ) return true; return false; }
    void leaves( std::vector< int > & v ) const { for ( int i = 0; i < d->n; ++i ) if ( s.alive[ i ] && d->s[ i ].nreg == 0 ) v.push_back( i ); }
    bool highest( int x ) const { int p = parent( x ); return p == -1 ? true : d->s[ x ].region == d->s[ p ].nreg - 1; }

    void destroy( int x )
    {
      const Rec * r = peek();
      if ( r == 0 || r->k != R_DTOR || r->a != x ) unexpected( R_DTOR, x, 0 );
      checkTrig( *r ); ++pos;
      while ( peek() && peek()->k == R_POST ) post();
      s.alive[ x ] = false; int p = parent( x );
      if ( p == -1 ) s.root = -1; else s.child[ p ][ d->s[ x ].region ] = -1;
      if ( s.deferred[ x ] ) { s.deferred[ x ] = false; s.q.insert( s.q.begin(), s.dq.begin(), s.dq.end() ); s.dq.clear(); }
    }
    void unwind( int x ) // a frame holding a partly entered state is left by an exception
    {
      if ( s.alive[ x ] && d->s[ x ].nreg != 0 && childless( x ) && s.U != x ) destroy( x );
    }
    void construct( int x )
    {
      if ( allocFails( x ) ) throw MExc{ BADALLOC };
      cb( R_CTOR, x, 0, 0, true );
      int p = parent( x );
      s.alive[ x ] = true; s.deferred[ x ] = false;
      if ( p == -1 ) s.root = x; else s.child[ p ][ d->s[ x ].region ] = x;
      bool leaf = d->s[ x ].nreg == 0;
      if ( leaf && allocFails( T_INTERNAL ) ) { destroy( x ); throw MExc{ BADALLOC }; }
      if ( s.common || ( highest( x ) && s.U == p ) ) { s.common = false; s.U = leaf ? -1 : x; }
    }
    void deepConstruct( int x )
    {
      construct( x );
      try { for ( int r = 0; r < d->s[ x ].nreg; ++r ) entry( d->s[ x ].init[ r ] ); }
      catch ( const MExc & ) { unwind( x ); throw; }
    }
    void constructPath( const std::vector< int > & path, std::size_t i, const Target & tg )
    {
      if ( i + 1 == path.size() ) { entry( tg ); return; }
      int x = path[ i ], r1 = d->s[ path[ i + 1 ] ].region;
      construct( x );
      try
      {
        for ( int r = 0; r < r1; ++r ) entry( d->s[ x ].init[ r ] );
        constructPath( path, i + 1, tg );
        for ( int r = r1 + 1; r < d->s[ x ].nreg; ++r ) entry( d->s[ x ].init[ r ] );
      }
      catch ( const MExc & ) { unwind( x ); throw; }
    }
    std::vector< int > pathTo( int from, int x ) const // states below from down to x
    {
      std::vector< int > p; for ( int y = x; y != from; y = parent( y ) ) p.insert( p.begin(), y ); return p;
    }
    void entry( const Target & tg )
    {
      if ( tg.hist == 0 ) { deepConstruct( tg.s ); return; }
      histEntry = true;
      const int ctx = parent( tg.s ), key = ctx * 8 + d->s[ tg.s ].region;
      std::map< int, int > & m = tg.hist == 1 ? s.sh : s.dp;
      std::map< int, int >::iterator f = m.find( key );
      if ( f == m.end() ) { deepConstruct( tg.s ); return; }
      const int v = f->second;
      if ( tg.hist == 1 ) deepConstruct( v );
      else { Target l = { 0, v }; constructPath( pathTo( ctx, v ), 0, l ); }
    }
    void storeHistory( int x )
    {
      int p = parent( x );
      if ( p == -1 ) return;
      struct Slot { std::map< int, int > * m; int key; };
      std::vector< Slot > v;
      if ( d->s[ p ].hist & 1 ) v.push_back( Slot{ &s.sh, p * 8 + d->s[ x ].region } );
      if ( d->s[ x ].nreg == 0 ) for ( int y = x; parent( y ) != -1; y = parent( y ) ) if ( d->s[ parent( y ) ].hist & 2 )
        v.push_back( Slot{ &s.dp, parent( y ) * 8 + d->s[ y ].region } );
      if ( v.empty() ) return;
      // the histories of different kinds are independent: when saving one fails, nothing says which of the others were saved before
      const bool failed = allocFails( T_INTERNAL );
      const int n = int( v.size() ); // at most one per enclosing state, and the shallow one
      int saved = failed ? choose( ( 1 << n ) - 1 ) : 0;
      for ( std::size_t i = 0; i < v.size(); ++i ) if ( !failed || ( saved >> i & 1 ) ) ( *v[ i ].m )[ v[ i ].key ] = x;
      if ( failed ) throw MExc{ BADALLOC };
    }
    void exitOne( int x, bool full )
    {
      if ( s.U == -1 || s.U == x ) s.U = parent( x );
      if ( full )
      {
        try { if ( !d->s[ x ].noExit ) cb( R_EXIT, x, 0, 0, true ); storeHistory( x ); }
        catch ( const MExc & )
        {
          destroy( x );
          for ( int p = parent( x ); p != -1 && childless( p ) && s.U != p; p = parent( p ) ) destroy( p );
          throw;
        }
      }
      destroy( x );
      int p = parent( x );
      if ( p != -1 && childless( p ) && !held( p ) ) exitOne( p, full );
    }
    void remove( int x, bool full )
    {
      if ( d->s[ x ].nreg == 0 || childless( x ) ) { if ( !held( x ) ) exitOne( x, full ); return; }
      for ( int r = d->s[ x ].nreg - 1; r >= 0; --r ) if ( s.child[ x ][ r ] != -1 ) remove( s.child[ x ][ r ], full );
    }
    void termImpl( int x, bool full )
    {
      s.common = false;
      remove( x, full );
    }
    void terminateAll( bool full )
    {
      s.full = true;
      if ( s.root != -1 ) termImpl( s.root, full );
      s.q.clear(); s.dq.clear(); s.sh.clear(); s.dp.clear();
      if ( s.root == -1 ) s.U = -1;
    }

    // ---- reactions --------------------------------------------------------------------------------------------------
    int commonContext( int x, int y ) const // innermost proper context of x that is a proper context of y
    {
      for ( int a = parent( x ); a != -1; a = parent( a ) ) for ( int b = parent( y ); b != -1; b = parent( b ) ) if ( a == b ) return a;
      return -1;
    }
    void act( int ctx, int a, const MEv & e ) { cb( R_ACT, ctx, a, e.inst, true ); }
    struct Hold { Model & m; std::size_t n; Hold( Model & mm, int x ) : m( mm ), n( mm.hold.size() ) { m.hold.push_back( x ); } void release() { m.hold.resize( n ); } ~Hold() { m.hold.resize( n ); } };
    struct Trans { Model & m; Trans( Model & mm ) : m( mm ) { ++m.transDepth; } ~Trans() { --m.transDepth; } };
    void leavePart( int x ) { termImpl( x, s.full ); s.common = true; }
    void transit( int x, const Target & tg, int ctx, int a, const MEv & e )
    {
      const int c = commonContext( x, tg.s );
      int ts = x; while ( parent( ts ) != c ) ts = parent( ts );
      bool inside = false; // the action's context lies below the common context
      if ( d->relax && a ) for ( int y = x; y != c; y = parent( y ) ) if ( y == ctx ) inside = true;
      if ( inside && ctx == x && d->s[ x ].nreg == 0 )
      {
        act( ctx, a, e );
        Trans tr( *this ); Hold h( *this, c );
        leavePart( ts );
        constructPath( pathTo( c, tg.s ), 0, tg );
        return;
      }
      Trans tr( *this ); Hold h( *this, c );
      if ( inside )
      {
        { Hold h2( *this, ctx ); leavePart( ctx ); act( ctx, a, e ); }
        leavePart( ts );
      }
      else { leavePart( ts ); if ( a ) act( ctx, a, e ); }
      constructPath( pathTo( c, tg.s ), 0, tg );
    }
    void terminateState( int x )
    {
      Trans tr( *this ); inTerm = true;
      termImpl( x, s.full ); s.U = -1;
    }
    const Reac * match( int x, const MEv & e, int & idx ) const
    {
      const std::vector< Reac > & r = d->s[ x ].r;
      for ( idx = 0; idx < (int)r.size(); ++idx ) if ( r[ idx ].ev == ANY || r[ idx ].ev == e.type ) return &r[ idx ];
      return 0;
    }
    Res reactFrom( int x, const MEv & e )
    {
      for ( ; x != -1; x = parent( x ) )
      {
        int idx; const Reac * r = match( x, e, idx );
        if ( r == 0 ) continue;
        switch ( r->kind )
        {
          case K_TRANS: transit( x, r->t, r->ctx, r->act, e ); return DIS;
          case K_INSTATE: if ( r->act ) cb( R_INACT, r->ctx, r->act, e.inst, true ); return DIS;
          case K_DEFER: s.deferred[ x ] = true; return DEF;
          case K_TERM: terminateState( x ); return DIS;
          default:
          {
            const Opt & o = r->opts[ cb( R_REACT, x, idx, e.inst, true ) ];
            switch ( o.kind )
            {
              case O_FWD: continue;
              case O_DIS: return DIS;
              case O_DEF: s.deferred[ x ] = true; return DEF;
              case O_TERM: terminateState( x ); return DIS;
              case O_TRANS: transit( x, o.t, o.ctx, o.act, e ); return DIS;
              default:
                if ( peek() == 0 || peek()->k != R_CLEAR ) unexpected( R_CLEAR, 0, 0 );
                ++pos; clear( o.ck, o.cs, o.cr );
                return DIS;
            }
          }
        }
      }
      return FWD;
    }
    void clear( int kind, int ctx, int r )
    {
      clearSeen = true;
      std::map< int, int > & m = kind == 1 ? s.sh : s.dp;
      if ( allocFails( T_INTERNAL ) ) throw MExc{ BADALLOC };
      m.erase( ctx * 8 + r );
    }
    bool translates( const MExc & x ) const
    {
      if ( d->trans == 0 ) return false;
      if ( d->trans == 1 ) return true;
      return x.id > 0 && ( x.id & 3 ) == 1; // kind 0
    }
    Res handle( const MExc & x, int current )
    {
      if ( s.root == -1 ) throw x;
      const int at = s.U != -1 ? s.U : current;
      if ( at == -1 ) throw Inconclusive{ "no state to start handling at", false, pos };
      const int oldTrig = s.trig; s.trig = EXCEV; excPtr = 0;
      const bool wasHandling = handling; handling = true; handledSeen = true;
      const int oldTd = transDepth; transDepth = 0; std::vector< int > oldHold; oldHold.swap( hold );
      s.full = false;
      Res r; MEv e = { EXCEV, EXC, false };
      try { r = reactFrom( at, e ); }
      catch ( const MExc & ) { s.trig = oldTrig; handling = wasHandling; transDepth = oldTd; throw; }
      s.full = true; s.trig = oldTrig; handling = wasHandling; transDepth = oldTd; hold.swap( oldHold );
      if ( r != DIS || s.U != -1 ) throw x;
      return DIS;
    }
    // what the search starting at leaf shows first: 0 nothing at all, 1 a callback (state, index), 2 something else
    int firstVisible( int x, const MEv & e, int & k, int & a, int & b ) const
    {
      for ( ; x != -1; x = parent( x ) )
      {
        int idx; const Reac * r = match( x, e, idx );
        if ( r == 0 ) continue;
        if ( r->kind == K_CUSTOM ) { k = R_REACT; a = x; b = idx; return 1; }
        if ( r->kind == K_INSTATE && r->act ) { k = R_INACT; a = r->ctx; b = r->act; return 1; }
        return 2;
      }
      return 0;
    }
    Res send( const MEv & e )
    {
      const int old = s.trig; s.trig = e.inst; curInst = e.inst; curType = e.type; histEntry = false; inTerm = false;
      Res res = FWD;
      try
      {
        std::vector< int > left; leaves( left );
        std::vector< int > use; for ( std::size_t i = 0; i < left.size(); ++i ) { int k, a, b; if ( firstVisible( left[ i ], e, k, a, b ) ) use.push_back( left[ i ] ); }
        while ( res == FWD && !use.empty() )
        {
          std::vector< std::size_t > cand;
          for ( std::size_t i = 0; i < use.size(); ++i )
          {
            int k = 0, a = 0, b = 0;
            if ( firstVisible( use[ i ], e, k, a, b ) == 1 )
            { const Rec * r = peek(); if ( r == 0 || r->k != k || r->a != a || r->b != b ) continue; }
            cand.push_back( i );
          }
          if ( cand.empty() ) { int k, a, b; firstVisible( use[ 0 ], e, k, a, b ); unexpected( k, a, b ); }
          const std::size_t i = cand[ choose( (int)cand.size() ) ]; const int leaf = use[ i ];
          use.erase( use.begin() + i );
          try { res = reactFrom( leaf, e ); }
          catch ( const MExc & x ) { if ( !translates( x ) ) throw; res = handle( x, leaf ); }
        }
      }
      catch ( const MExc & ) { terminateAll( false ); s.trig = old; throw; }
      if ( res == FWD )
      {
        try { cb( R_UNC, MACHINE, 0, e.inst, false ); }
        catch ( const MExc & ) { s.trig = old; throw; }
      }
      s.trig = old;
      return res;
    }
    void queueUnit() // one event from the queue
    {
      fromQueue = true;
      MEv e = s.q.front(); s.q.pop_front();
      if ( send( e ) == DEF )
      {
        if ( allocFails( T_INTERNAL ) ) throw MExc{ BADALLOC };
        s.dq.push_back( e );
      }
    }

    // ---- operations -------------------------------------------------------------------------------------------------
    void opProcess( MEv e )
    {
      if ( send( e ) == DEF )
      {
        if ( allocFails( T_EVENT + e.type ) ) throw MExc{ BADALLOC };
        int copies = 0;
        while ( peek() && peek()->k == R_COPY ) { if ( peek()->a != e.inst ) fail( "copy", "deferring copied another event object" ); e.inst = peek()->ev; ++copies; ++pos; }
        if ( e.man && copies ) fail( "copy", "an event object that was already managed by a pointer was copied when deferred" );
        if ( !e.man && copies != 1 ) fail( "copy", fmt( "a local event object was copied %d times when deferred", copies ) );
        e.man = true;
        if ( allocFails( T_INTERNAL ) ) throw MExc{ BADALLOC };
        s.dq.push_back( e );
      }
    }
    void opTerminate()
    {
      const int old = s.trig; s.trig = 0; machineOp = 1;
      try
      {
        try { Trans tr( *this ); terminateAll( true ); }
        catch ( const MExc & x ) { if ( !translates( x ) ) throw; handle( x, -1 ); }
      }
      catch ( const MExc & ) { terminateAll( false ); s.trig = old; throw; }
      s.trig = old;
    }
    void opInitiate()
    {
      opTerminate();
      const int old = s.trig; s.trig = 0; machineOp = 2;
      terminateAll( false ); // an exception while terminating may have been handled by a transition
      try
      {
        try { Trans tr( *this ); deepConstruct( d->initial ); }
        catch ( const MExc & x ) { if ( !translates( x ) ) throw; handle( x, -1 ); }
      }
      catch ( const MExc & ) { terminateAll( false ); s.trig = old; throw; }
      s.trig = old; machineOp = 0;
    }
    void opPost() { if ( peek() == 0 || peek()->k != R_POST ) unexpected( R_POST, 0, 0 ); post(); if ( ( *t )[ pos - 1 ].a == 0 ) throw MExc{ BADALLOC }; }
    void opDestroy() { machineOp = 1; s.trig = 0; terminateAll( false ); }
};
}
#endif
