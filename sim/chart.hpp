// Glue between the real library and the simulator, included by every generated chart translation unit.
// CHART_NS, CHART_TRANS (0 none, 1 exception_translator, 2 custom, 3 exception_translator with an event of the user), CHART_STDALLOC are defined by the generated file.
#include <boost/statechart/event.hpp>
#include <boost/statechart/state_machine.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/state.hpp>
#include <boost/statechart/custom_reaction.hpp>
#include <boost/statechart/transition.hpp>
#include <boost/statechart/termination.hpp>
#include <boost/statechart/deferral.hpp>
#include <boost/statechart/in_state_reaction.hpp>
#include <boost/statechart/shallow_history.hpp>
#include <boost/statechart/deep_history.hpp>
#include <boost/statechart/exception_translator.hpp>
#include <boost/mpl/list.hpp>
#include "ssim.hpp"

namespace boost { void assertion_failed( char const *, char const *, char const *, long ); void assertion_failed_msg( char const *, char const *, char const *, char const *, long ); }

namespace CHART_NS
{
namespace sc = boost::statechart;
namespace mpl = boost::mpl;
using namespace ssim;

#if CHART_STDALLOC
typedef std::allocator< sc::none > SAlloc;
typedef std::allocator< sc::none > EAlloc;
#else
typedef SimAlloc< sc::none, 1 > SAlloc;
typedef SimAlloc< sc::none, 2 > EAlloc;
#endif

struct CustomId { int x; };
enum { NIDS = MAXS + NEV };
inline CustomId * customIds() { static CustomId c[ 3 * NIDS ]; return c; }
// what is stored for each state and event type of the chart; every third state type never gets an identifier
inline const CustomId ** wantedIds() { static const CustomId * w[ NIDS ]; return w; }
inline const CustomId * nextId( int k, unsigned salt ) { const unsigned v = ( salt * 2654435761u + k * 40503u ) >> 13; return wantedIds()[ k ] = v % 4 == 3 ? 0 : &customIds()[ v % 4 * NIDS + k ]; }
void storeIds();             // stores identifiers anew

template< int K > struct Pad { int pad[ K + 1 ]; Pad() { for ( int i = 0; i <= K; ++i ) pad[ i ] = K * 100 + i; } bool ok() const { for ( int i = 0; i <= K; ++i ) if ( pad[ i ] != K * 100 + i ) return false; return true; } };
template< int K > struct Ev : sc::event< Ev< K >, EAlloc >, EvBody, Pad< K >
{
  typedef void SimTagged; enum { simTag = T_EVENT + K };
  explicit Ev( int logical ) : EvBody( K, logical ) {}
};
typedef boost::intrusive_ptr< const sc::event_base > EvPtr;

struct CExc : sc::event< CExc > { int id; explicit CExc( int i ) : id( i ) {} };
struct CTrans
{
  template< class Action, class Handler >
  sc::result operator()( Action action, Handler handler )
  {
    try { return action(); }
    catch ( const SimExc & e ) { if ( e.kind != 0 ) throw; return handler( CExc( e.id ) ); }
  }
};
#if CHART_TRANS == 0
typedef sc::null_exception_translator Trans;
typedef CExc ExcEv;
#elif CHART_TRANS == 1
typedef sc::exception_translator<> Trans;
typedef sc::exception_thrown ExcEv;
#elif CHART_TRANS == 3
struct DExc : sc::event< DExc > {};
typedef sc::exception_translator< DExc > Trans;
typedef DExc ExcEv;
#else
typedef CTrans Trans;
typedef CExc ExcEv;
#endif

inline EvInfo info( const sc::event_base * p )
{
  EvInfo r; r.p = p; r.inst = NOEV;
  if ( p == 0 ) return r;
  if ( const EvBody * b = dynamic_cast< const EvBody * >( p ) )
  {
    r.inst = b->check();
    bool same = false;
    switch ( b->type )
    {
      case 0: same = p->dynamic_type() == Ev< 0 >::static_type() && static_cast< const Ev< 0 > * >( p )->ok(); break;
      case 1: same = p->dynamic_type() == Ev< 1 >::static_type() && static_cast< const Ev< 1 > * >( p )->ok(); break;
      case 2: same = p->dynamic_type() == Ev< 2 >::static_type() && static_cast< const Ev< 2 > * >( p )->ok(); break;
      case 3: same = p->dynamic_type() == Ev< 3 >::static_type() && static_cast< const Ev< 3 > * >( p )->ok(); break;
    }
    #ifndef BOOST_STATECHART_USE_NATIVE_RTTI
    if ( wantIds() && p->template custom_dynamic_type_ptr< CustomId >() != wantedIds()[ MAXS + b->type ] ) violation( "rtti", "an event does not return the custom type identifier stored for its type" );
    #endif
    if ( !same ) violation( "event,rtti", "an event arrived with another type or content than it was sent with" );
  }
  else if ( p->dynamic_type() == ExcEv::static_type() ) r.inst = EXCEV;
  else r.inst = STRANGE;
  return r;
}

template< int K > inline EvPtr makeHeap() { EvPtr p( new Ev< K >( newLogical() ) ); return p; }
inline EvPtr heapEvent( int type )
{
  EvPtr p;
  switch ( type ) { case 0: p = makeHeap< 0 >(); break; case 1: p = makeHeap< 1 >(); break; case 2: p = makeHeap< 2 >(); break; default: p = makeHeap< 3 >(); break; }
  setManaged( info( p.get() ).inst );
  return p;
}
struct Held { EvPtr p[ NEV ]; };
inline Held & held() { static Held h; return h; }
inline EvPtr heldEvent( int type ) { EvPtr & p = held().p[ type ]; if ( !p ) { p = heapEvent( type ); setHeld( info( p.get() ).inst ); } return p; }

template< class Self, int K > void postStack( Self & self )
{
  Ev< K > e( newLogical() );
  if ( postBegin( e.inst, false ) ) { Undepth u; self.simPost( e ); }
}
// copies made by user code: objects of their own, whatever refers to the original
template< class Self, int K > void postCopy( Self & self, const sc::event_base & cur, bool heap )
{
  const Ev< K > & c = static_cast< const Ev< K > & >( cur );
  if ( heap )
  {
    EvPtr p;
    if ( c.inst & 1 ) p = EvPtr( new Ev< K >( c ) );
    else { boost::intrusive_ptr< Ev< K > > w( new Ev< K >( newLogical() ) ); if ( c.inst & 2 ) p = w; *w = c; p = w; } // assigning does not change who refers to it
    const int i = info( p.get() ).inst; setManaged( i ); if ( postBegin( i, true ) ) { Undepth u; self.simPost( p ); } return;
  }
  const int l = newLogical();
  if ( l & 1 ) { Ev< K > e( l ); e = c; if ( postBegin( e.inst, false ) ) { Undepth u; self.simPost( e ); } }
  else { Ev< K > e( c ); if ( postBegin( e.inst, false ) ) { Undepth u; self.simPost( e ); } }
}
template< class Self > void postOne( Self & self, int type, int source, const sc::event_base * cur )
{
  // an event object that some pointer manages already is posted through a pointer or a reference, a local one by reference
  try
  {
    if ( source == 2 && cur != 0 && info( cur ).inst > 0 )
    {
      if ( type < 2 ) { if ( postBegin( info( cur ).inst, managed( info( cur ).inst ) ) ) { Undepth u; self.simPost( *cur ); } }
      else switch ( evType( info( cur ).inst ) )
      {
        case 0: postCopy< Self, 0 >( self, *cur, type == 3 ); break;
        case 1: postCopy< Self, 1 >( self, *cur, type == 3 ); break;
        case 2: postCopy< Self, 2 >( self, *cur, type == 3 ); break;
        default: postCopy< Self, 3 >( self, *cur, type == 3 ); break;
      }
    }
    else if ( source == 1 ) { EvPtr p = heapEvent( type ); if ( postBegin( info( p.get() ).inst, true ) ) { Undepth u; self.simPost( p ); } }
    else if ( source == 3 ) { EvPtr p = heldEvent( type ); if ( postBegin( info( p.get() ).inst, true ) ) { Undepth u; self.simPost( *p ); } }
    else switch ( type )
    {
      case 0: postStack< Self, 0 >( self ); break;
      case 1: postStack< Self, 1 >( self ); break;
      case 2: postStack< Self, 2 >( self ); break;
      default: postStack< Self, 3 >( self ); break;
    }
  }
  catch ( const std::bad_alloc & ) { postEnd( false ); throw; }
  postEnd( true );
}

// a state's own view of the machine
struct NoPost { template< class X > void simPost( const X & ) {} };
inline void selfQuery( NoPost & ) {}
template< class Self > void selfQuery( Self & self );

// one callback of user code: logged, then it does what the decision says
template< class Self >
int callback( Self & self, int kind, int a, int b, const sc::event_base * ev, const sc::event_base * trig, bool knowTrig, int nopt, bool canPost )
{
  Depth d;
  EvInfo e = info( ev ), t; t.p = 0; t.inst = NA;
  if ( knowTrig ) t = info( trig );
  const unsigned code = cbBegin( kind, a, b, e, t, nopt, canPost, true );
  const unsigned nest = takeNested();
  #if CHART_TRANS
  if ( e.inst == EXCEV ) flying();
  #endif
  const int thr = ( code >> D_THROW_SHIFT ) & 3;
  if ( thr == 1 ) cbThrow( kind, a, code );
  if ( code & D_SNAP ) { snapNow( false ); selfQuery( self ); }
  if ( canPost )
  {
    const int n = ( code >> D_NPOST_SHIFT ) & 3;
    try { for ( int i = 0; i < n; ++i ) { const int spec = ( code >> ( D_POST_SHIFT + 4 * i ) ) & 15; postOne( self, spec & 3, spec >> 2, ev ); } }
    catch ( const std::bad_alloc & ) { cbBadAlloc( kind, a ); throw; }
  }
  if ( nest ) nested( nest, ev, e.inst );
  if ( thr >= 2 ) cbThrow( kind, a, code );
  return cbEnd( kind, a, code, nopt );
}

template< class S > inline void alive( const S & s, int id ) { if ( s.Body::magic != LIVE || s.Body::id != id ) violation( "mem", "user code ran on a state object that is not alive" ); }

template< class S > void cbCtor( S & s, int id ) { s.simContexts(); callback( s, R_CTOR, id, 0, 0, s.triggering_event(), true, 0, true ); }
inline void cbCtorSimple( int id ) { NoPost n; callback( n, R_CTOR, id, 0, 0, 0, false, 0, false ); }
template< class S > void cbExit( S & s, int id ) { alive( s, id ); s.simContexts(); callback( s, R_EXIT, id, 0, 0, s.triggering_event(), true, 0, true ); }
template< class S > void cbDtor( S & s, int id ) {
  Depth d; alive( s, id ); const unsigned code = logDtor( id, info( s.triggering_event() ) );
  for ( int i = 0, n = ( code >> D_NPOST_SHIFT ) & 3; i < n; ++i ) { const int spec = ( code >> ( D_POST_SHIFT + 4 * i ) ) & 15; postOne( s, spec & 3, spec >> 2, 0 ); }
}
template< class S > int cbReact( S & s, int id, int idx, const sc::event_base & e, int nopt ) { alive( s, id ); s.simContexts(); return callback( s, R_REACT, id, idx, &e, s.triggering_event(), true, nopt, true ); }
template< class S > void cbAct( S & s, int id, int act, const sc::event_base & e ) { alive( s, id ); s.simContexts(); callback( s, R_ACT, id, act, &e, s.triggering_event(), true, 0, true ); }
template< class S > void cbInAct( S & s, int id, int act, const sc::event_base & e ) { alive( s, id ); s.simContexts(); callback( s, R_INACT, id, act, &e, s.triggering_event(), true, 0, true ); }
template< class S > void cbUnc( S & s, const sc::event_base & e ) { alive( s, MACHINE ); callback( s, R_UNC, MACHINE, 0, &e, s.triggering_event(), true, 0, true ); }
// everything a state encloses it in, from the inside out; the machine's number is MACHINE
template< class P, class S > inline void ctxOne( S & s, int id )
{
  const S & c = s; P & p = s.template context< P >();
  if ( static_cast< Body & >( p ).id != id || static_cast< Body & >( p ).magic != LIVE || &p != &c.template context< P >() ) violation( "snap", "a state's context is not its enclosing state" );
}
template< class S > inline void ctxMachine( S & s )
{
  const S & c = s; Body & b = s.outermost_context();
  if ( b.id != MACHINE || b.magic != LIVE || &s.outermost_context() != &c.outermost_context() ) violation( "snap", "a state's outermost context is not the machine" );
}

// the machine's common part
template< class M > struct Handle : IMachine
{
  M * m;
  Handle() : m( 0 ) { Undepth u; m = new M; }
  ~Handle() { Undepth u; delete m; }
  void initiate() { storeIds(); Undepth u; m->initiate(); }
  void terminate() { storeIds(); Undepth u; m->terminate(); }
  template< int K > void procStack() { Ev< K > e( newLogical() ); topEvent( e.inst ); Undepth u; m->process_event( e ); }
  void process( int type, int source, const void * cur )
  {
    storeIds();
    if ( source == 4 ) { const sc::event_base * p = static_cast< const sc::event_base * >( cur ); topEvent( info( p ).inst ); Undepth u; m->process_event( *p ); return; }
    if ( source == 0 ) switch ( type ) { case 0: procStack< 0 >(); return; case 1: procStack< 1 >(); return; case 2: procStack< 2 >(); return; default: procStack< 3 >(); return; }
    EvPtr p = source == 1 ? heapEvent( type ) : heldEvent( type );
    topEvent( info( p.get() ).inst );
    Undepth u; m->process_event( *p );
  }
  void post( int type, int source, const void * cur ) { postOne( *m, source == 4 ? 0 : type, source == 4 ? 2 : source, static_cast< const sc::event_base * >( cur ) ); }
  void clear( int idx ) { Undepth u; m->simClear( idx ); }
  void snapshot( Snap & s, bool refs, bool ask )
  {
    const M & cm = *m;
    s.bad = 0; s.refs = refs; s.asked = ask; s.terminated = cm.terminated(); s.trigNull = cm.triggering_event() == 0; s.nleaf = 0; s.down = s.cast = s.downRef = s.castRef = 0;
    for ( int i = 0; i < 3; ++i ) s.mix[ i ] = s.mixRef[ i ] = -2;
    for ( typename M::state_iterator i = cm.state_begin(); i != cm.state_end(); )
    {
      const typename M::state_iterator old = s.nleaf & 1 ? i++ : i; if ( !( s.nleaf & 1 ) ) ++i; // both ways of going on
      if ( s.nleaf >= MAXS ) { s.bad = "more innermost states than the chart has states"; return; }
      int n = 0;
      for ( const typename M::state_base_type * p = s.nleaf & 2 ? old.operator->() : &*old; p != 0; p = p->outer_state_ptr() )
      {
        const Body * b = dynamic_cast< const Body * >( p );
        if ( b == 0 || b->magic != LIVE || n >= 11 ) { s.bad = "an enumerated state is not a live state of the chart"; return; }
        if ( !cm.simSameType( b->id, p->dynamic_type() ) ) { s.bad = "an enumerated state reports the type of another state"; return; }
        #ifndef BOOST_STATECHART_USE_NATIVE_RTTI
        const CustomId * c = p->template custom_dynamic_type_ptr< CustomId >();
        if ( wantIds() && c != wantedIds()[ b->id ] ) { s.bad = "a state does not return the custom type identifier stored for its type"; return; }
        #endif
        s.leaf[ s.nleaf ][ n++ ] = b->id;
      }
      s.leaf[ s.nleaf ][ n ] = -1; ++s.nleaf;
    }
    if ( ask ) cm.simQuery( s );
  }
  bool terminatedNow() { const M & cm = *m; return cm.terminated(); }
  void dropHeld() { for ( int i = 0; i < NEV; ++i ) held().p[ i ] = 0; }
};
template< class S, class M > inline void queryState( const M & m, Snap & s, int id )
{
  const S * p = m.template state_downcast< const S * >();
  if ( p ) { s.down |= 1u << id; if ( p->Body::magic != LIVE || p->Body::id != id ) s.bad = "state_downcast returned a wrong object"; }
  p = m.template state_cast< const S * >();
  if ( p ) { s.cast |= 1u << id; if ( p->Body::magic != LIVE || p->Body::id != id ) s.bad = "state_cast returned a wrong object"; }
  if ( !s.refs ) return;
  try { const S & r = m.template state_downcast< const S & >(); s.downRef |= 1u << id; if ( &r != m.template state_downcast< const S * >() ) s.bad = "state_downcast returned a wrong reference"; } catch ( const std::bad_cast & ) {}
  try { const S & r = m.template state_cast< const S & >(); s.castRef |= 1u << id; if ( &r != m.template state_cast< const S * >() ) s.bad = "state_cast returned a wrong reference"; } catch ( const std::bad_cast & ) {}
}
template< class X, class M > inline void queryMix( const M & m, Snap & s, int i )
{
  const X * p = m.template state_cast< const X * >();
  s.mix[ i ] = p ? dynamic_cast< const Body & >( *p ).id : -1;
  if ( !s.refs ) return;
  try { const X & r = m.template state_cast< const X & >(); s.mixRef[ i ] = dynamic_cast< const Body & >( r ).id; } catch ( const std::bad_cast & ) { s.mixRef[ i ] = -1; }
}
template< class M, class Self > void machineQuery( const M & m, Self & self )
{
  if ( self.template state_downcast< const Self * >() != m.template state_downcast< const Self * >() || self.template state_cast< const Self * >() != m.template state_cast< const Self * >() )
    violation( "snap", "a state asking for itself gets another answer than the machine gives" );
  typename M::state_iterator i = self.state_begin(), j = m.state_begin();
  for ( ; i != self.state_end() && j != m.state_end(); ++i, j++ ) if ( &*i != &*j || i.operator->() != &*i || !( i == j ) || i != j ) violation( "snap", "a state sees other innermost states than the machine" );
  if ( i != self.state_end() || j != m.state_end() ) violation( "snap", "a state sees other innermost states than the machine" );
}
template< class Self > void selfQuery( Self & self ) { Self::simSelf( self ); }

// type identifiers: one per type, told apart from all others
struct TypeIds
{
  std::vector< sc::event_base::id_type > v;
  typedef sc::event_base::id_type T;
  static void order( T a, T b, bool lt, bool eq )
  {
    if ( ( a < b ) != lt || ( b > a ) != lt || ( a >= b ) == lt || ( b <= a ) == lt || ( a == b ) != eq || ( a != b ) == eq || ( a <= b ) != ( lt || eq ) || ( a > b ) == ( lt || eq ) )
      violation( "rtti", "type identifiers are not strictly ordered" );
  }
  void add( T t ) { for ( std::size_t i = 0; i < v.size(); ++i ) { const bool lt = v[ i ] < t; order( v[ i ], t, lt, false ); order( t, v[ i ], !lt, false ); } order( t, t, false, true ); for ( std::size_t i = 0; i < v.size(); ++i ) if ( v[ i ] == t || !( v[ i ] != t ) || ( v[ i ] < t ) == ( t < v[ i ] ) ) violation( "rtti", "two types report equal type identifiers, or an inconsistent order" ); if ( !( t == t ) || t < t ) violation( "rtti", "a type identifier differs from itself" ); v.push_back( t ); }
};
}
