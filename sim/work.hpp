// Workload for the asynchronous part: compiled with -fsanitize=thread instrumentation against rt.cpp.
// Everything below runs inside the simulation and uses only the documented interface of the library.
#ifndef SIM_WORK_HPP
#define SIM_WORK_HPP
#include "rt.hpp"
#include "plan.hpp"

#include <boost/statechart/asynchronous_state_machine.hpp>
#include <boost/statechart/fifo_scheduler.hpp>
#include <boost/statechart/fifo_worker.hpp>
#include <boost/statechart/event_processor.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/state.hpp>
#include <boost/statechart/event.hpp>
#include <boost/statechart/custom_reaction.hpp>
#include <boost/statechart/transition.hpp>
#include <boost/mpl/list.hpp>
#include <boost/ref.hpp>
#include <boost/bind/bind.hpp>
#include <new>

namespace sc = boost::statechart;
namespace mpl = boost::mpl;

struct Boom { int id; explicit Boom( int i ) : id( i ) {} };

// a value with a heap part: leaks, double destruction and races on it are visible to the runtime
struct Token
{
  int * p;
  explicit Token( int v ) : p( new int( v ) ) {}
  // Copying never fails: Boost.Function loses the memory it has just obtained from an allocator when copying the
  // function object into it throws, which is no concern of the code under test.
  Token( const Token & o ) { const int k = rt::suspendFailures(); p = new int( *o.p ); rt::resumeFailures( k ); }
  Token & operator=( const Token & o ) { *p = *o.p; return *this; }
  ~Token() { delete p; p = 0; }
  int get() const { return *p; }
};

template< class T > struct CAlloc
{
  typedef T value_type;
  template< class U > struct rebind { typedef CAlloc< U > other; };
  CAlloc() {}
  template< class U > CAlloc( const CAlloc< U > & ) {}
  T * allocate( std::size_t n ) { return static_cast< T * >( ::operator new( n * sizeof( T ) ) ); }
  T * allocate( std::size_t n, const void * ) { return allocate( n ); }
  void deallocate( T * p, std::size_t n ) { ::operator delete( p, n * sizeof( T ) ); }
  template< class U > bool operator==( const CAlloc< U > & ) const { return true; }
  template< class U > bool operator!=( const CAlloc< U > & ) const { return false; }
};

struct Ev : sc::event< Ev >
{
  int id, what, k; Token tok;
  Ev( int i, int w, int kk ) : id( i ), what( w ), k( kk ), tok( i * 7 + 1 ) {}
  Ev( const Ev & o ) : sc::event< Ev >( o ), id( o.id ), what( o.what ), k( o.k ), tok( o.tok ) {}
  void check() const { if ( tok.get() != id * 7 + 1 ) rt::violation( "corrupt-event", "event %d arrived with wrong content", id ); }
};
struct EvInt : sc::event< EvInt > { int id, n; EvInt( int i, int m ) : id( i ), n( m ) {} };

template< class S > struct World;
template< class S > struct AM;

// ---------------------------------------------------------------------------------------------- processors
template< class S >
struct ProcBase : sc::event_processor< S >
{
  typedef sc::event_processor< S > base;
  int slot; Token mine;
  unsigned counter;             // touched by every callback: confinement is checked as absence of races
  ProcBase( typename base::my_context ctx, int s ) : base( ctx ), slot( s ), mine( s ), counter( 1 )
  {
    World< S >::w->ctorCheck( *this );
  }
  ~ProcBase() { ++counter; rt::log( PD, slot ); }
  virtual void initiate_impl() { ++counter; rt::log( PI, slot ); World< S >::w->callback( 'I', slot, this ); }
  virtual void process_event_impl( const sc::event_base & e )
  {
    ++counter;
    const Ev & ev = static_cast< const Ev & >( e );
    ev.check();
    rt::log( PE, slot, ev.id );
    World< S >::w->runBody( ev.id, this );
    rt::log( PX, slot, ev.id );
  }
  virtual void terminate_impl() { ++counter; rt::log( PT, slot ); World< S >::w->callback( 'X', slot, this ); }
};

template< class S, int K > struct ProcZ : ProcBase< S >
{
  ProcZ( typename ProcBase< S >::my_context ctx ) : ProcBase< S >( ctx, World< S >::w->zslot[ K ] )
  { World< S >::w->ctorBody( this->slot, this ); }
};

// A constructor argument: knows for which processor it was made and which argument it is. All arguments have this one
// type, so that a library which mixes them up still compiles and is judged by what it does.
struct Arg
{
  Token t; int id, pos;
  Arg( int i, int p ) : t( i * 8 + p ), id( i ), pos( p ) {}
  Arg( const Arg & o ) : t( o.t ), id( o.id ), pos( o.pos ) {}
};
struct Args { Arg a[ 6 ]; explicit Args( int i ) : a{ Arg( i, 1 ), Arg( i, 2 ), Arg( i, 3 ), Arg( i, 4 ), Arg( i, 5 ), Arg( i, 6 ) } {} };
template< class S > struct Proc : ProcBase< S >
{
  typedef typename ProcBase< S >::my_context ctx_t;
  typedef World< S > W;
  // first, second, fourth and sixth argument by value, third and fifth by reference
  Proc( ctx_t c, Arg a1 ) : ProcBase< S >( c, a1.id ) { v( a1, 1 ); fin(); }
  Proc( ctx_t c, Arg a1, Arg a2 ) : ProcBase< S >( c, a1.id ) { v( a1, 1 ); v( a2, 2 ); fin(); }
  Proc( ctx_t c, Arg a1, Arg a2, Arg & a3 ) : ProcBase< S >( c, a1.id ) { v( a1, 1 ); v( a2, 2 ); r( a3, 3 ); fin(); }
  Proc( ctx_t c, Arg a1, Arg a2, Arg & a3, Arg a4 ) : ProcBase< S >( c, a1.id ) { v( a1, 1 ); v( a2, 2 ); r( a3, 3 ); v( a4, 4 ); fin(); }
  Proc( ctx_t c, Arg a1, Arg a2, Arg & a3, Arg a4, Arg & a5 ) : ProcBase< S >( c, a1.id ) { v( a1, 1 ); v( a2, 2 ); r( a3, 3 ); v( a4, 4 ); r( a5, 5 ); fin(); }
  Proc( ctx_t c, Arg a1, Arg a2, Arg & a3, Arg a4, Arg & a5, Arg a6 ) : ProcBase< S >( c, a1.id )
  { v( a1, 1 ); v( a2, 2 ); r( a3, 3 ); v( a4, 4 ); r( a5, 5 ); v( a6, 6 ); fin(); }
  void fin() { W::w->ctorBody( this->slot, this ); }
  void v( const Arg & a, int pos ) { ck( a.id == this->slot && a.pos == pos && a.t.get() == a.id * 8 + pos ); }
  void r( Arg & a, int pos ) { v( a, pos ); ck( &a == &W::w->refArg[ this->slot ]->a[ pos - 1 ] ); *a.t.p += 0; }
  void ck( bool ok ) { if ( !ok ) rt::log( BADARG, this->slot ); }
};
template< class S > struct ProcK : ProcBase< S > // all arguments by reference to const
{
  typedef typename ProcBase< S >::my_context ctx_t;
  typedef World< S > W; typedef const Arg & A;
  ProcK( ctx_t c, A a1, A a2 ) : ProcBase< S >( c, a1.id ) { k( a1, 1 ); k( a2, 2 ); W::w->ctorBody( this->slot, this ); }
  ProcK( ctx_t c, A a1, A a2, A a3, A a4, A a5, A a6 ) : ProcBase< S >( c, a1.id ) { k( a1, 1 ); k( a2, 2 ); k( a3, 3 ); k( a4, 4 ); k( a5, 5 ); k( a6, 6 ); W::w->ctorBody( this->slot, this ); }
  void k( A a, int pos ) { if ( a.id != this->slot || a.pos != pos || a.t.get() != a.id * 8 + pos || &a != &W::w->refArg[ this->slot ]->a[ pos - 1 ] ) rt::log( BADARG, this->slot ); }
};

// ---------------------------------------------------------------------------------------------- machines
// One chart, always the same: Outer( A | B ).  A defers events with what == 2; what == 1 toggles A and B; what == 0
// posts k internal events; what == 3 is a ball (forwarded k more times around the ring); what == 4 throws; what == 5
// runs the body of the event's id.
template< class S > struct Outer;
template< class S > struct InA;
template< class S > struct InB;

template< class S > struct AM : sc::asynchronous_state_machine< AM< S >, Outer< S >, S >
{
  typedef sc::asynchronous_state_machine< AM< S >, Outer< S >, S > base;
  int slot; Token mine; unsigned counter;
  AM( typename base::my_context ctx, int s ) : base( ctx ), slot( s ), mine( s ), counter( 1 )
  { World< S >::w->ctorCheck( *this ); World< S >::w->ctorBody( s, this ); }
  ~AM() { ++counter; rt::log( PD, slot ); this->counter = 0; }
  void unconsumed_event( const sc::event_base & e )
  {
    ++counter;
    const Ev * ev = dynamic_cast< const Ev * >( &e );
    if ( ev ) { ev->check(); rt::log( AU, slot, ev->id ); }
  }
};
template< class S > struct Outer : sc::state< Outer< S >, AM< S >, mpl::list< InA< S > > >
{
  typedef sc::state< Outer< S >, AM< S >, mpl::list< InA< S > > > base;
  int slot;
  Outer( typename base::my_context ctx ) : base( ctx )
  {
    slot = this->outermost_context().slot; ++this->outermost_context().counter;
    rt::log( AI, slot );
    this->post_event( EvInt( 0, 0 ) );
  }
  ~Outer() { rt::log( AD, slot ); }
  void exit() { ++this->outermost_context().counter; rt::log( AX, slot ); }
  typedef mpl::list< sc::custom_reaction< Ev >, sc::custom_reaction< EvInt > > reactions;
  sc::result react( const EvInt & e )
  { ++this->outermost_context().counter; rt::log( AP, slot, e.id, e.n ); return this->discard_event(); }
  sc::result react( const Ev & e )
  {
    AM< S > & m = this->outermost_context(); ++m.counter; e.check();
    rt::log( AR, slot, e.id, e.what );
    switch ( e.what )
    {
      case 0: for ( int i = 0; i < e.k; ++i ) { if ( i & 1 ) { boost::intrusive_ptr< EvInt > p( new EvInt( e.id, i ) ); this->post_event( p ); }
                else this->post_event( EvInt( e.id, i ) ); } break;
      case 3: World< S >::w->forwardBall( e, m ); break;
      case 4: throw Boom( e.id );
      case 5: World< S >::w->runBody( e.id, &m ); break;
      default: break;
    }
    return this->discard_event();
  }
};
template< class S > struct InA : sc::simple_state< InA< S >, Outer< S > >
{
  typedef sc::custom_reaction< Ev > reactions;
  sc::result react( const Ev & e )
  {
    if ( e.what == 1 ) { rt::log( AR, this->outermost_context().slot, e.id, 1 ); return this->template transit< InB< S > >(); }
    if ( e.what == 2 ) { rt::log( AR, this->outermost_context().slot, e.id, 2, 1 ); return this->defer_event(); }
    return this->forward_event();
  }
};
template< class S > struct InB : sc::simple_state< InB< S >, Outer< S > >
{
  typedef sc::custom_reaction< Ev > reactions;
  sc::result react( const Ev & e )
  {
    if ( e.what == 1 ) { rt::log( AR, this->outermost_context().slot, e.id, 1 ); return this->template transit< InA< S > >(); }
    return this->forward_event();
  }
};

// ---------------------------------------------------------------------------------------------- work items
struct Payload { int id; int check; };
template< class S > struct BigItem       // does not fit into the small buffer of boost::function
{
  World< S > * w; int id; Token t; long pad[ 4 ];
  BigItem( World< S > * ww, int i ) : w( ww ), id( i ), t( i + 5 ) { for ( int k = 0; k < 4; ++k ) pad[ k ] = i + k; }
  void operator()() const
  {
    for ( int k = 0; k < 4; ++k ) if ( pad[ k ] != id + k ) rt::violation( "corrupt-item", "work item %d was damaged", id );
    if ( t.get() != id + 5 ) rt::violation( "corrupt-item", "work item %d was damaged", id );
    w->item( id );
  }
};

template< class S > struct HasProcessors { enum { value = 1 }; };
template< class A > struct HasProcessors< sc::fifo_worker< A > > { enum { value = 0 }; };
template< class S, bool > struct HandleOf { typedef typename S::processor_handle type; };
template< class S > struct HandleOf< S, false > { typedef int type; };

template< class S > struct World
{
  enum { P = HasProcessors< S >::value, MAXID = 1200 };
  typedef typename HandleOf< S, P >::type handle_t;
  typedef boost::intrusive_ptr< const Ev > evp;
  static World * w;

  S * sched[ 3 ];
  int schedOf[ MAXID ];
  handle_t handles[ MAXID ];
  Payload * payload[ MAXID ];
  Args * refArg[ MAXID ];
  int zslot[ 4 ];
  evp shared[ 16 ][ 8 ];      // by fiber
  int ring[ 8 ], ringN, ringSch[ 8 ];

  World() : ringN( 0 )
  {
    for ( int i = 0; i < 3; ++i ) sched[ i ] = 0;
    for ( int i = 0; i < MAXID; ++i ) { schedOf[ i ] = -1; payload[ i ] = 0; refArg[ i ] = 0; }
    for ( int i = 0; i < 4; ++i ) zslot[ i ] = -1;
  }

  // --- called from work units --------------------------------------------------------------------------------
  void item( int id )
  {
    rt::log( XB, id );
    int s = schedOf[ id ];
    if ( s >= 0 && sched[ s ]->terminated() ) rt::log( TF, id );
    if ( payload[ id ] )
    {
      if ( payload[ id ]->check != id * 3 ) rt::violation( "corrupt-item", "data published before item %d was queued is not there", id );
    }
    try { runOps( id, 0 ); } catch ( ... ) { rt::log( XT, id ); throw; }
    rt::log( XE, id );
  }
  static void smallItem( int id ) { w->item( id ); }

  template< class Pr > void runBody( int id, Pr * self )
  {
    try { runOps( id, self ); } catch ( ... ) { rt::log( XT, id ); throw; }
  }
  template< class Pr > void callback( char k, int slot, Pr * self )
  {
    int unit = slot + ( k == 'I' ? 100000 : k == 'X' ? 200000 : 300000 );
    runBody( unit, self );
  }
  template< class Pr > void ctorCheck( Pr & p )
  {
    if constexpr ( P )
    {
      rt::log( PC, p.slot, schedOf[ p.slot ] );
      if ( schedOf[ p.slot ] < 0 || &p.my_scheduler() != sched[ schedOf[ p.slot ] ] ) rt::log( BADARG, p.slot, 1 );
      if ( p.my_handle().expired() ) rt::log( BADARG, p.slot, 2 );
    }
  }
  template< class Pr > void ctorBody( int slot, Pr * self )
  {
    try { runOps( 300000 + slot, self ); } catch ( ... ) { rt::log( XT, 300000 + slot ); throw; }
  }
  template< class Pr > void runOps( int unit, Pr * self )
  {
    std::map< int, std::vector< Op > >::const_iterator i = g_prog->body.find( unit );
    if ( i == g_prog->body.end() ) return;
    for ( std::size_t k = 0; k < i->second.size(); ++k ) exec( i->second[ k ], self );
  }
  void runOps( int unit, int ) { runOps( unit, (ProcBase< S > *)0 ); }
  void forwardBall( const Ev & e, AM< S > & m )
  {
    if constexpr ( P )
    {
      if ( e.k <= 0 || ringN == 0 ) return;
      int at = 0; for ( int i = 0; i < ringN; ++i ) if ( ring[ i ] == m.slot ) at = i;
      int to = ring[ ( at + 1 ) % ringN ];
      if ( !rt::acquire( to ) ) { rt::log( SKIP, e.id ); return; }
      int id = e.id + 1000;
      evp p( new Ev( id, 3, e.k - 1 ) );
      rt::log( QI, id, 'E', schedOf[ to ], to );
      sched[ schedOf[ to ] ]->queue_event( handles[ to ], p );
      rt::log( QR, id, 0 );
    }
  }

  // --- operations --------------------------------------------------------------------------------------------
  template< class Pr > void exec( const Op & o, Pr * self )
  {
    switch ( o.kind )
    {
      case 'Y': rt::yieldPoint(); return;
      case 'H': throw Boom( o.id );
      case 'Z': shared[ rt::self() ][ o.a ] = evp(); return;
      case 'R': run( o ); return;
      default: break;
    }
    int slot = o.a;
    if ( o.kind == 'D' || o.kind == 'I' || o.kind == 'X' || o.kind == 'E' )
      if ( slot >= 0 && !rt::acquire( slot ) ) { rt::log( SKIP, o.id ); return; }
    int sch = o.kind == 'D' || o.kind == 'I' || o.kind == 'X' || o.kind == 'E' ?
      ( slot >= 0 ? schedOf[ slot ] : self ? selfSched( self ) : -1 ) : o.sch;
    if ( slot < 0 && ( o.kind == 'D' || o.kind == 'I' || o.kind == 'X' || o.kind == 'E' ) && !self ) return;
    if ( sch < 0 || !sched[ sch ] ) return;
    int lslot = slot >= 0 || !self ? slot : slotOf( self );
    int unitId = o.id;
    if ( o.kind == 'E' && o.b >= 100 ) unitId = 900 + ( o.b - 100 ); // shared event: identified by event and slot
    if ( o.kind == 'C' ) { schedOf[ o.id ] = sch; lslot = o.id; }
    if ( o.kind == 'Q' && o.a >= 2 && o.a <= 3 ) rt::log( QI, o.id, 'N', sch, 0 );
    else rt::log( QI, o.id, o.kind == 'E' && o.b >= 100 ? 'S' : o.kind, sch, o.kind == 'E' && o.b >= 100 ? lslot * 1000 + unitId : lslot );
    int code = 0;
    int armed = 0;
    typename S::work_item item;
    try
    {
      // things the harness allocates itself come first, so that an injected failure hits the library
      evp ev;
      if ( o.kind == 'Q' )
      {
        schedOf[ o.id ] = sch;
        if ( o.a == 0 || o.a == 4 )
        { payload[ o.id ] = new Payload; payload[ o.id ]->id = o.id; payload[ o.id ]->check = o.id * 3; item = boost::bind( &World::smallItem, o.id ); }
        else if ( o.a == 1 || o.a == 5 ) item = BigItem< S >( this, o.id );
      }
      if ( o.kind == 'C' && ( o.b <= 6 || o.b >= 14 ) && o.b != 1 && o.b != 2 ) if ( !refArg[ o.id ] ) refArg[ o.id ] = new Args( o.id );
      if ( o.kind == 'E' )
      {
        if ( o.b >= 100 ) { ev = shared[ rt::self() ][ o.b - 100 ]; if ( !ev ) { rt::log( QR, o.id, 3 ); return; } }
        else ev = evp( new Ev( o.id, o.b, o.c ) );
      }
      if ( o.fail ) { rt::failAllocation( o.fail ); armed = 1; }
      submit( o, sch, self, item, ev );
      if ( armed ) { armed = 0; rt::failAllocation( 0 ); }
      if ( o.kind == 'Q' && ( o.a == 0 || o.a == 1 || o.a == 2 ) && !item.empty() && o.a != 2 )
        rt::log( EMPTY, o.id ); // documented to be moved into the queue; only recorded
    }
    catch ( const std::bad_alloc & ) { code = 1; if ( armed && !rt::allocationFailed() ) code = 2; rt::failAllocation( 0 );
      if ( o.kind == 'Q' && o.a != 2 && o.a != 3 && armed && item.empty() ) rt::violation( "item-taken", "submitting item %d failed, but the item was taken from the submitter", o.id ); }
    catch ( const Boom & ) { code = 2; rt::failAllocation( 0 ); }
    rt::log( QR, o.id, code );
    if ( o.kind == 'C' && code == 0 ) rt::release( o.id );
    if ( code == 2 ) rt::violation( "stray-exception", "a submission call threw something that was not injected there" );
  }
  template< class Pr > int slotOf( Pr * self )
  {
    if constexpr ( P ) return self->slot;
    return -1;
  }
  template< class Pr > int selfSched( Pr * self )
  {
    if constexpr ( P ) { for ( int i = 0; i < 3; ++i ) if ( sched[ i ] == &self->my_scheduler() ) return i; }
    return -1;
  }
  template< class Pr > void submit( const Op & o, int sch, Pr * self, typename S::work_item & item, const evp & ev )
  {
    S & s = *sched[ sch ];
    switch ( o.kind )
    {
      case 'Q':
        if ( o.a == 0 || o.a == 1 || o.a == 2 ) s.queue_work_item( item );
        else { const typename S::work_item & c = item; s.queue_work_item( c ); }
        break;
      case 'T': s.terminate(); break;
      default:
        if constexpr ( P ) submitProc( o, s, self, ev );
        break;
    }
  }
  template< class Pr > void submitProc( const Op & o, S & s, Pr * self, const evp & ev )
  {
    switch ( o.kind )
    {
      case 'C': create( o, s ); break;
      case 'D': s.destroy_processor( o.a >= 0 ? handles[ o.a ] : self->my_handle() ); break;
      case 'I': s.initiate_processor( o.a >= 0 ? handles[ o.a ] : self->my_handle() ); break;
      case 'X': s.terminate_processor( o.a >= 0 ? handles[ o.a ] : self->my_handle() ); break;
      case 'E':
        if ( o.a >= 0 && ( o.id & 1 ) ) { handle_t h = handles[ o.a ]; s.queue_event( h, ev ); }
        else if ( o.a >= 0 ) s.queue_event( handles[ o.a ], ev );
        else s.queue_event( self->my_handle(), ev );
        break;
    }
  }
  void create( const Op & o, S & s )
  {
    int id = o.id; handle_t h; Arg * const a = refArg[ id ] ? refArg[ id ]->a : 0;
    switch ( o.b )
    {
      case 1: h = s.template create_processor< Proc< S > >( Arg( id, 1 ) ); break;
      case 2: h = s.template create_processor< Proc< S > >( Arg( id, 1 ), Arg( id, 2 ) ); break;
      case 3: h = s.template create_processor< Proc< S > >( Arg( id, 1 ), Arg( id, 2 ), boost::ref( a[ 2 ] ) ); break;
      case 4: h = s.template create_processor< Proc< S > >( Arg( id, 1 ), Arg( id, 2 ), boost::ref( a[ 2 ] ), Arg( id, 4 ) ); break;
      case 5: h = s.template create_processor< Proc< S > >( Arg( id, 1 ), Arg( id, 2 ), boost::ref( a[ 2 ] ), Arg( id, 4 ), boost::ref( a[ 4 ] ) ); break;
      case 6: h = s.template create_processor< Proc< S > >( Arg( id, 1 ), Arg( id, 2 ), boost::ref( a[ 2 ] ), Arg( id, 4 ), boost::ref( a[ 4 ] ), Arg( id, 6 ) ); break;
      case 14: h = s.template create_processor< ProcK< S > >( boost::cref( a[ 0 ] ), boost::cref( a[ 1 ] ) ); break;
      case 15: h = s.template create_processor< ProcK< S > >( boost::cref( a[ 0 ] ), boost::cref( a[ 1 ] ), boost::cref( a[ 2 ] ), boost::cref( a[ 3 ] ), boost::cref( a[ 4 ] ), boost::cref( a[ 5 ] ) ); break;
      case 7: h = s.template create_processor< AM< S > >( id ); break;
      case 10: zslot[ 0 ] = id; h = s.template create_processor< ProcZ< S, 0 > >(); break;
      case 11: zslot[ 1 ] = id; h = s.template create_processor< ProcZ< S, 1 > >(); break;
      case 12: zslot[ 2 ] = id; h = s.template create_processor< ProcZ< S, 2 > >(); break;
      case 13: zslot[ 3 ] = id; h = s.template create_processor< ProcZ< S, 3 > >(); break;
      default: rt::violation( "harness", "bad create variant %d", o.b );
    }
    handles[ id ] = h;
  }
  // a run call; an exception ends it and it is repeated, as a caller that wants to keep the scheduler going would
  void run( const Op & o )
  {
    S & s = *sched[ o.sch ];
    // limits that do not fit narrower types mean what they say
    unsigned long limit = o.a; int shown = o.a;
    switch ( o.b )
    {
      case 1: limit += 65536; shown = int( limit ); break;
      case 2: limit += 4294967296ul; shown = 0x7fffffff; break;
      case 3: limit = ~0ul; shown = 0x7fffffff; break;
      case 4: limit += 256; shown = int( limit ); break;
      case 5: limit += 2147483648ul; shown = 0x7fffffff; break;
    }
    for ( int attempt = 0; attempt < 60; ++attempt )
    {
      rt::log( RB, o.sch, shown, o.id, s.terminated() );
      if ( o.fail && attempt == 0 ) rt::failAllocation( o.fail );
      int thrown = 0;
      try
      {
        unsigned long n = o.a == 0 && o.b == 0 && ( o.id & 1 ) ? s() : s( limit );
        rt::failAllocation( 0 );
        rt::log( RR, o.sch, int( n ), s.terminated(), o.id );
      }
      catch ( const Boom & b ) { thrown = 1; rt::log( RX, o.sch, 1, b.id, o.id ); }
      catch ( const std::bad_alloc & ) { thrown = 2; rt::log( RX, o.sch, rt::allocationFailed() ? 2 : 3, 0, o.id ); }
      rt::failAllocation( 0 );
      if ( rt::holdsLocks( rt::self() ) ) rt::violation( "lock-leak", "a lock is still held after the run call returned" );
      if ( !thrown ) break;
    }
  }

  static void fiberEntry( void * a )
  {
    int f = rt::self(); (void)a;
    const std::vector< Op > & v = g_prog->ops[ f ];
    for ( std::size_t i = 0; i < v.size(); ++i )
    {
      w->exec( v[ i ], (ProcBase< S > *)0 );
      if ( rt::holdsLocks( f ) ) rt::violation( "lock-leak", "a lock is still held after an operation returned" );
    }
    for ( int k = 0; k < 8; ++k ) w->shared[ f ][ k ] = evp();
  }

  static S * make( bool wait )
  {
    #ifdef BOOST_HAS_THREADS
    return new S( wait );
    #else
    (void)wait; return new S;
    #endif
  }

  static void mainFiber( void * )
  {
    const Program & p = *g_prog;
    w = new World;
    for ( int i = 0; i < p.nSched; ++i )
    {
      if ( p.initFail && i == 0 ) rt::failInit( p.initFail );
      for ( int t = 0; t < 2 && !w->sched[ i ]; ++t )
      {
        try { w->sched[ i ] = make( p.wait[ i ] ); }
        catch ( const std::exception & ) { rt::log( INITX, i ); }
      }
      rt::failInit( 0 );
      if ( !w->sched[ i ] ) rt::violation( "harness", "scheduler construction failed twice" );
    }
    // machines that take part in the ring are the AM create ops of the clients, in program order
    for ( int f = 1; f < 16; ++f ) for ( std::size_t i = 0; i < p.ops[ f ].size(); ++i )
    {
      const Op & o = p.ops[ f ][ i ];
      if ( o.kind == 'C' && o.b == 7 && o.c && w->ringN < 8 ) w->ring[ w->ringN++ ] = o.id;
    }
    int nf = p.nSched + p.nClients;
    for ( int k = 0; k < p.nShared; ++k )
    {
      evp e( new Ev( 900 + k, 0, 0 ) );
      for ( int f = 1; f <= nf; ++f ) w->shared[ f ][ k ] = e;
    }
    for ( int f = 1; f <= nf; ++f ) rt::spawn( &fiberEntry, 0 );
    for ( int round = 0; ; ++round )
    {
      rt::waitQuiescent();
      rt::log( PHASE, 1, round );
      for ( int f = p.nSched + 1; f <= nf; ++f ) if ( !rt::finished( f ) )
        rt::violation( "deadlock", "thread %d is blocked for ever while submitting (%s)", f, rt::blockedOnLock( f ) ? "on a lock" : "waiting" );
      bool allDone = true;
      for ( int f = 1; f <= p.nSched; ++f ) if ( !rt::finished( f ) )
      {
        allDone = false;
        if ( rt::blockedOnLock( f ) ) rt::violation( "deadlock", "the thread running scheduler %d is blocked on a lock for ever", f - 1 );
        if ( !p.wait[ f - 1 ] ) rt::violation( "nonblocking-waits", "a non-blocking worker waits" );
        if ( round > 0 ) rt::violation( "lost-wakeup", "the worker of scheduler %d sleeps although termination was queued", f - 1 );
        rt::log( PHASE, 2, f - 1 );       // asleep: the checker verifies that nothing is queued
      }
      if ( allDone ) break;
      if ( round > 1 ) rt::violation( "lost-wakeup", "workers do not finish" );
      for ( int f = 1; f <= p.nSched; ++f ) if ( !rt::finished( f ) )
      { rt::log( QI, 9000 + f, 'T', f - 1, 0 ); w->sched[ f - 1 ]->terminate(); rt::log( QR, 9000 + f, 0 ); }
    }
    for ( int f = 1; f <= nf; ++f ) rt::join( f );
    // final drain by this thread, which is now the one that runs the schedulers
    for ( int pass = 0; pass < 16; ++pass ) for ( int i = 0; i < p.nSched; ++i )
    {
      const bool last = pass >= 12;
      if ( p.nSched == 1 && pass > 1 && !last ) continue;
      if ( p.wait[ i ] && last && !w->sched[ i ]->terminated() )
      { rt::log( QI, 9100 + i, 'T', i, 0 ); w->sched[ i ]->terminate(); rt::log( QR, 9100 + i, 0 ); }
      if ( p.wait[ i ] && !last && !w->sched[ i ]->terminated() ) continue;
      Op o = { 'R', 9200 + pass * 10 + i, i, 0, 0, 0, 0 };
      w->run( o );
    }
    rt::log( DRAIN );
    for ( int i = 0; i < p.nSched; ++i ) { delete w->sched[ i ]; w->sched[ i ] = 0; }
    rt::log( PHASE, 3 );
    for ( int i = 0; i < MAXID; ++i ) { delete w->payload[ i ]; w->payload[ i ] = 0; delete w->refArg[ i ]; }
    delete w; w = 0;
    if ( rt::liveBlocks() )
    {
      char buf[ 400 ]; rt::describeLive( buf, sizeof buf );
      rt::violation( "leak", "%zu blocks were never released:%s", rt::liveBlocks(), buf );
    }
  }

  // one run call that executes a great many items: every item queues the next one
  static unsigned long massDone;
  static void massItem( S * s ) { ++massDone; typename S::work_item i = boost::bind( &World::massItem, s ); s->queue_work_item( i ); }
  static void massFiber( void * )
  {
    massDone = 0; S * s = make( g_prog->wait[ 0 ] );
    typename S::work_item i = boost::bind( &World::massItem, s ); s->queue_work_item( i );
    unsigned long want = 0; const unsigned long limits[] = { 65536ul + g_prog->nShared, 1, 65537, 255, 256 + g_prog->nShared % 3 };
    for ( int k = 0; k < 5; ++k )
    {
      const unsigned long n = ( *s )( limits[ k ] ); want += limits[ k ];
      rt::log( RR, 0, int( n ), s->terminated(), k );
      if ( n != limits[ k ] || massDone != want || s->terminated() ) rt::violation( "count", "a run call with limit %lu reported %lu items; %lu were executed in all, expected %lu", limits[ k ], n, massDone, want );
    }
    s->terminate(); const unsigned long n = ( *s )(); ++want;
    if ( n != 2 || massDone != want || !s->terminated() ) rt::violation( "count", "a run call that executed one item and the termination reported %lu", n );
    delete s;
    if ( rt::liveBlocks() ) rt::violation( "leak", "%zu blocks were never released", rt::liveBlocks() );
  }
};
template< class S > unsigned long World< S >::massDone = 0;
template< class S > World< S > * World< S >::w = 0;

#endif
