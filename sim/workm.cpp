// Workload "private machines": every fiber owns its machines and shares nothing with the others except event objects.
// Compiled with -fsanitize=thread instrumentation against rt.cpp.
#include "rt.hpp"
#include "plan.hpp"
#include <boost/statechart/state_machine.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/state.hpp>
#include <boost/statechart/event.hpp>
#include <boost/statechart/exception_translator.hpp>
#include <boost/statechart/custom_reaction.hpp>
#include <boost/statechart/transition.hpp>
#include <boost/statechart/in_state_reaction.hpp>
#include <boost/statechart/termination.hpp>
#include <boost/statechart/deferral.hpp>
#include <boost/statechart/shallow_history.hpp>
#include <boost/statechart/deep_history.hpp>
#include <boost/statechart/fifo_worker.hpp>
#include <boost/mpl/list.hpp>
#include <boost/bind/bind.hpp>
#include <bits/stl_list.h>

// The list primitives of libstdc++ that are not inline, so that their memory accesses are seen as well.
namespace std { namespace __detail {
void _List_node_base::_M_hook( _List_node_base * const p ) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base * const n = _M_next, * const p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer( _List_node_base * const first, _List_node_base * const last ) noexcept
{
  if ( this == last ) return;
  last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first;
  _List_node_base * const t = _M_prev; _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
}
void _List_node_base::_M_reverse() noexcept
{
  _List_node_base * t = this;
  do { _List_node_base * n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while ( t != this );
}
void _List_node_base::swap( _List_node_base & x, _List_node_base & y ) noexcept
{
  if ( x._M_next != &x )
  {
    if ( y._M_next != &y )
    {
      _List_node_base * a = x._M_next, * b = x._M_prev; x._M_next = y._M_next; x._M_prev = y._M_prev; y._M_next = a; y._M_prev = b;
      x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y;
    }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  }
  else if ( y._M_next != &y ) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
} }

namespace sc = boost::statechart;
namespace mpl = boost::mpl;
namespace pm
{
struct Oops { int v; explicit Oops( int x ) : v( x ) {} };
struct E0 : sc::event< E0 > { int v; explicit E0( int x ) : v( x ) {} };       // toggle
struct E1 : sc::event< E1 > { int v; explicit E1( int x ) : v( x ) {} };       // P -> R
struct E2 : sc::event< E2 > { int v; explicit E2( int x ) : v( x ) {} };       // R -> P shallow
struct E3 : sc::event< E3 > { int v; explicit E3( int x ) : v( x ) {} };       // R -> P deep
struct E4 : sc::event< E4 > { int v; int * heap; explicit E4( int x ) : v( x ), heap( new int( x ) ) {}
  E4( const E4 & o ) : sc::event< E4 >( o ), v( o.v ), heap( new int( *o.heap ) ) {} ~E4() { delete heap; } };  // deferred in P1
struct E5 : sc::event< E5 > { int v; explicit E5( int x ) : v( x ) {} };       // posts
struct E6 : sc::event< E6 > { int v; explicit E6( int x ) : v( x ) {} };       // throws
struct E7 : sc::event< E7 > { int v; explicit E7( int x ) : v( x ) {} };       // constructor throws
struct E8 : sc::event< E8 > { int v; explicit E8( int x ) : v( x ) {} };       // Idle <-> Top
struct E9 : sc::event< E9 > { int v; explicit E9( int x ) : v( x ) {} };       // terminate region

void L( int a, int b = 0, int c = 0, int d = 0 ) { rt::log( MT, a, b, c, d ); }

struct Idle; struct Top;
struct M : sc::state_machine< M, Idle, std::allocator< sc::none >, sc::exception_translator<> >
{
  int armed, own; M() : armed( 0 ), own( 0 ) {}
  void unconsumed_event( const sc::event_base & ) { L( 90, own ); }
  void act( const E0 & e ) { ++own; L( 91, e.v ); }
  void post( const boost::intrusive_ptr< const sc::event_base > & e ) { post_event( e ); }
};
struct Idle : sc::simple_state< Idle, M >
{
  Idle() { L( 1 ); } ~Idle() { L( 2 ); } void exit() { L( 3 ); }
  typedef mpl::list< sc::transition< E8, Top >, sc::deferral< E4 > > reactions;
};
struct P; struct Q; struct P1; struct P2; struct P2a; struct P2b; struct R; struct Q1; struct Q2; struct S1;
struct Top : sc::state< Top, M, mpl::list< P, Q > >
{
  Top( my_context c ) : my_base( c ) { L( 10 ); ++outermost_context().own; post_event( E5( 0 ) ); }
  ~Top() { L( 11 ); } void exit() { L( 12 ); }
  typedef mpl::list< sc::transition< E8, Idle >, sc::custom_reaction< sc::exception_thrown >, sc::custom_reaction< E6 >,
    sc::custom_reaction< E5 > > reactions;
  sc::result react( const sc::exception_thrown & )
  {
    try { throw; } catch ( const Oops & o ) { L( 13, o.v ); if ( o.v % 3 == 0 ) return forward_event(); }
    catch ( const std::bad_alloc & ) { L( 14 ); return forward_event(); }
    return transit< Idle >();
  }
  sc::result react( const E6 & e ) { L( 15, e.v ); throw Oops( e.v ); }
  sc::result react( const E5 & e ) { L( 16, e.v ); for ( int i = 0; i < e.v % 4; ++i ) post_event( E5( 0 ) ); return discard_event(); }
};
struct P : sc::simple_state< P, Top::orthogonal< 0 >, P1, sc::has_full_history >
{
  P() { L( 20 ); } ~P() { L( 21 ); } void exit() { L( 22 ); }
  typedef sc::transition< E1, R > reactions;
};
struct P1 : sc::simple_state< P1, P >
{
  P1() { L( 23 ); } ~P1() { L( 24 ); } void exit() { L( 25 ); }
  typedef mpl::list< sc::transition< E0, P2, M, &M::act >, sc::deferral< E4 > > reactions;
};
struct P2 : sc::simple_state< P2, P, P2a >
{
  P2() { L( 26 ); } ~P2() { L( 27 ); } void exit() { L( 28 ); }
  typedef mpl::list< sc::custom_reaction< E4 >, sc::transition< E7, P1 > > reactions;
  sc::result react( const E4 & e ) { L( 29, e.v, *e.heap ); return discard_event(); }
};
struct P2a : sc::simple_state< P2a, P2 > { P2a() { L( 30 ); } ~P2a() { L( 31 ); } typedef sc::transition< E0, P2b > reactions; };
struct P2b : sc::simple_state< P2b, P2 > { P2b() { L( 32 ); } ~P2b() { L( 33 ); } typedef sc::transition< E9, P1 > reactions; };
struct R : sc::simple_state< R, Top::orthogonal< 0 > >
{
  R() { L( 34 ); } ~R() { L( 35 ); } void exit() { L( 36 ); }
  typedef mpl::list< sc::transition< E2, sc::shallow_history< P1 > >, sc::transition< E3, sc::deep_history< P1 > >, sc::termination< E9 > > reactions;
};
struct Q : sc::simple_state< Q, Top::orthogonal< 1 >, Q1 > { Q() { L( 40 ); } ~Q() { L( 41 ); } void exit() { L( 42 ); } };
struct Q1 : sc::simple_state< Q1, Q >
{
  Q1() { L( 43 ); } ~Q1() { L( 44 ); }
  void seen( const E0 & e ) { L( 45, e.v ); }
  typedef mpl::list< sc::transition< E7, Q2 >, sc::custom_reaction< E0 > > reactions;
  sc::result react( const E0 & e ) { L( 45, e.v ); return forward_event(); }
};
struct Q2 : sc::state< Q2, Q >
{
  Q2( my_context c ) : my_base( c )
  { L( 46 ); const E7 * e = dynamic_cast< const E7 * >( triggering_event() ); if ( e && e->v % 3 == 1 ) throw Oops( e->v ); }
  ~Q2() { L( 47 ); }
  typedef sc::transition< E7, Q1 > reactions;
};

typedef boost::intrusive_ptr< const sc::event_base > evp;
evp sharedEv[ 16 ][ 8 ];

void snapshot( const M & m )
{
  int h = m.terminated() ? 1 : 0;
  for ( M::state_iterator i = m.state_begin(); i != m.state_end(); ++i )
    h = h * 31 + ( dynamic_cast< const P1 * >( &*i ) ? 3 : dynamic_cast< const P2a * >( &*i ) ? 5 : dynamic_cast< const Q1 * >( &*i ) ? 7 : 11 );
  L( 99, h, m.state_cast< const Top * >() != 0, m.state_downcast< const Q * >() != 0 );
}

void nop( int v ) { L( 80, v ); }

void fiber( void * )
{
  int f = rt::self();
  const std::vector< Op > & v = g_prog->ops[ f ];
  {
    M * m = new M;
    sc::fifo_worker<> w;
    for ( std::size_t i = 0; i < v.size(); ++i )
    {
      const Op & o = v[ i ];
      if ( o.kind == 'Y' ) { rt::yieldPoint(); continue; }
      L( 70, o.a, o.b );
      if ( o.fail ) rt::failAllocation( o.fail );
      try
      {
        switch ( o.a )
        {
          case 0: m->process_event( E0( o.b ) ); break;
          case 1: m->process_event( E1( o.b ) ); break;
          case 2: m->process_event( E2( o.b ) ); break;
          case 3: m->process_event( E3( o.b ) ); break;
          case 4: { boost::intrusive_ptr< E4 > e( new E4( o.b ) ); m->process_event( *e ); break; }
          case 5: m->process_event( E5( o.b ) ); break;
          case 6: m->process_event( E6( o.b ) ); break;
          case 7: m->process_event( E7( o.b ) ); break;
          case 8: m->process_event( E8( o.b ) ); break;
          case 9: m->process_event( E9( o.b ) ); break;
          case 10: m->initiate(); break;
          case 11: m->terminate(); break;
          case 12: delete m; m = 0; m = new M; break;
          case 13: if ( sharedEv[ f ][ o.b ] ) { m->post( sharedEv[ f ][ o.b ] ); if ( o.c ) sharedEv[ f ][ o.b ] = 0; m->process_event( E5( 0 ) ); } break;
          case 14: if ( sharedEv[ f ][ o.b ] ) m->process_event( *sharedEv[ f ][ o.b ] ); break;
          case 15: { sc::fifo_worker<>::work_item it = boost::bind( &nop, o.b ); w.queue_work_item( it ); L( 81, int( w() ) ); break; }
          case 16: sharedEv[ f ][ o.b ] = 0; break;
        }
      }
      catch ( const Oops & e ) { L( 71, e.v ); }
      catch ( const std::bad_alloc & ) { L( 72, rt::allocationFailed() ); }
      rt::failAllocation( 0 );
      if ( !m ) m = new M;
      snapshot( *m );
    }
    delete m;
  }
  for ( int k = 0; k < 8; ++k ) sharedEv[ f ][ k ] = 0;
}
} // namespace pm

void mainFiberM( void * )
{
  using namespace pm;
  const Program & p = *g_prog;
  for ( int k = 0; k < p.nShared; ++k )
  {
    evp e; if ( k & 1 ) e = evp( new E4( 500 + k ) ); else e = evp( new E0( 500 + k ) );
    for ( int f = 1; f <= p.nClients; ++f ) sharedEv[ f ][ k ] = e;
  }
  for ( int f = 1; f <= p.nClients; ++f ) rt::spawn( &fiber, 0 );
  for ( int f = 1; f <= p.nClients; ++f ) rt::join( f );
  if ( rt::liveBlocks() )
  {
    char buf[ 400 ]; rt::describeLive( buf, sizeof buf );
    rt::violation( "leak", "%zu blocks were never released:%s", rt::liveBlocks(), buf );
  }
}
