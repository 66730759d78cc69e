// Core of the synchronous simulator: everything user code of a simulated chart does goes through here.  The chart
// translation units (real library code under test) see only this interface.
#ifndef SSIM_HPP
#define SSIM_HPP
#include <cstddef>
#include <cstdint>
#include <vector>
#include <new>
#include <typeinfo>

namespace ssim
{
enum { MACHINE = 63, MAXS = 32, NEV = 4, EXC = 4, ANY = 5 };
enum RecKind { R_CTOR = 1, R_EXIT, R_DTOR, R_REACT, R_ACT, R_INACT, R_UNC, R_END, R_POST, R_POSTEND, R_COPY, R_AFAIL, R_CLEAR, R_SNAP, R_BAD };
enum { NOEV = 0, EXCEV = -2, STRANGE = -3, NA = -9 };
enum { BADALLOC = -1 };

// ---- chart description (the model's input) -------------------------------------------------------------------------
struct Target { int hist; int s; };                       // hist: 0 the state itself, 1 shallow history, 2 deep history
enum OptKind { O_FWD, O_DIS, O_DEF, O_TERM, O_TRANS, O_CLEAR };
struct Opt { int kind; Target t; int ctx; int act; int ck, cs, cr; }; // act 0: no action
enum ReacKind { K_CUSTOM, K_TRANS, K_INSTATE, K_DEFER, K_TERM };
struct Reac { int kind; int ev; Target t; int ctx; int act; std::vector< Opt > opts; };
struct StateD { int parent, region, nreg; std::vector< Target > init; int hist; int full; int noExit; int mix; std::vector< Reac > r; };
struct Clear { int kind, s, r; };                         // kind 1 shallow, 2 deep
struct ChartDesc
{
  int id; int n; int initial; int trans; int relax; int stdalloc;
  std::vector< StateD > s; std::vector< Clear > clears; const char * what;
};

struct Snap
{
  bool terminated, trigNull; int nleaf; int leaf[ MAXS ][ 12 ]; // chain outward, -1 terminated
  uint32_t down, cast, downRef, castRef; bool refs, asked; int mix[ 3 ]; int mixRef[ 3 ]; // -1 none, -2 not asked
  const char * bad;
};

struct IMachine
{
  virtual ~IMachine() {}
  virtual void initiate() = 0;
  virtual void terminate() = 0;
  // source: 0 local object, 1 new heap object, 3 object kept by the client, 4 the event another machine is processing
  virtual void process( int type, int source, const void * cur ) = 0;
  virtual void post( int type, int source, const void * cur ) = 0;        // from outside a processing call
  virtual void clear( int idx ) = 0;
  virtual void snapshot( Snap &, bool refs, bool ask ) = 0;
  virtual bool terminatedNow() = 0;
  virtual void dropHeld() = 0;
};
struct Chart { ChartDesc desc; IMachine * ( *create )(); };
struct RegisterChart { RegisterChart( Chart * ); };

// ---- what callbacks do ---------------------------------------------------------------------------------------------
struct SimExc { int id; int kind; };

struct Rec { int k, a, b, c, ev, trig; const void * evp; const void * trigp; };

struct EvInfo { int inst; const void * p; };

enum { LIVE = 0x51A7E11E, DEAD = 0x0DEADE11 };

// mixed into every event of a chart: identity and content of the object
struct EvBody
{
  EvBody( int type, int logical );
  EvBody( const EvBody & );
  EvBody & operator=( const EvBody & );
  virtual ~EvBody();
  int check() const;         // returns the instance number, reports damaged contents
  unsigned magic; int inst; int type; int logical; unsigned sum;
};

struct Body
{
  explicit Body( int i ) : id( i ), magic( LIVE ) {}
  ~Body() { magic = DEAD; }
  int id; unsigned magic;
};
struct Mix { virtual ~Mix() {} };

struct Depth { Depth(); ~Depth(); };       // inside the harness: allocations are not the library's
struct Undepth { Undepth(); ~Undepth(); int saved; }; // back in the library

enum { // fields of a decision
  D_OPT = 0xff, D_THROW_SHIFT = 8, D_KIND_SHIFT = 10, D_NPOST_SHIFT = 12, D_POST_SHIFT = 14, D_SNAP = 1 << 30
};

// begin a callback: logs it and returns the decision for it
unsigned cbBegin( int kind, int a, int b, EvInfo ev, EvInfo trig, int nopt, bool canPost, bool canThrow );
void cbThrow( int kind, int a, unsigned code );              // throws
void flying();
void cbBadAlloc( int kind, int a );                          // logs that the callback ends with bad_alloc
unsigned takeNested();                                      // what to do with the other machine during this callback
void nested( unsigned code, const void * ev, int inst );
int cbEnd( int kind, int a, unsigned code, int nopt );
unsigned logDtor( int a, EvInfo trig );                    // the events the destructor posts
void logClear( int idx );
void snapNow( bool refs );
bool wantIds();              // type identifiers are looked at
unsigned idSalt();           // decides which identifiers are stored
void violation( const char * cls, const char * text );
bool postBegin( int inst, bool managed );
void postEnd( bool ok );
int newLogical();
bool managed( int inst );
void setManaged( int inst );
void setHeld( int inst );
void topEvent( int inst );
int evType( int inst );

// ---- allocation ----------------------------------------------------------------------------------------------------
void * simAlloc( std::size_t bytes, int tag, int which, std::size_t typeHash );
void simFree( void * p, std::size_t bytes, int which, std::size_t typeHash );
enum { T_INTERNAL = 99, T_EVENT = 100, T_UNKNOWN = 98 };

template< class T > struct TagOf
{
  template< class U > static char test( typename U::SimTagged * );
  template< class U > static long test( ... );
  template< bool B, class D > struct sel { static int get() { return T_INTERNAL; } };
  template< class D > struct sel< true, D > { static int get() { return T::simTag; } };
  static int get() { return sel< sizeof( test< T >( 0 ) ) == 1, void >::get(); }
};

template< class T, int Which > struct SimAlloc
{
  typedef T value_type; typedef T * pointer; typedef const T * const_pointer; typedef T & reference; typedef const T & const_reference;
  typedef std::size_t size_type; typedef std::ptrdiff_t difference_type;
  template< class U > struct rebind { typedef SimAlloc< U, Which > other; };
  SimAlloc() {}
  template< class U > SimAlloc( const SimAlloc< U, Which > & ) {}
  T * allocate( std::size_t n, const void * = 0 ) { return static_cast< T * >( simAlloc( n * sizeof( T ), TagOf< T >::get(), Which, typeid( T ).hash_code() ) ); }
  void deallocate( T * p, std::size_t n ) { simFree( p, n * sizeof( T ), Which, typeid( T ).hash_code() ); }
  size_type max_size() const { return 1000000; }
  void construct( T * p, const T & v ) { new ( p ) T( v ); }
  void destroy( T * p ) { p->~T(); }
  bool operator==( const SimAlloc & ) const { return true; }
  bool operator!=( const SimAlloc & ) const { return false; }
};
}
#endif
