// Deterministic runtime for the concurrent part of the simulation.
//
// All "threads" are fibers on one OS thread.  Code compiled with -fsanitize=thread calls the __tsan_* entry points
// defined in rt.cpp (the real ThreadSanitizer runtime is not linked), and the pthread mutex / condition variable
// functions, operator new/delete and sched_yield are defined there too.  So every lock operation, wait, wake-up,
// atomic operation, allocation and (if enabled) every single memory access is a point where the seeded scheduler
// may switch fibers, and every memory access is checked for data races (vector clocks) and for use of freed memory.
#ifndef SIM_RT_HPP
#define SIM_RT_HPP
#include <cstdint>
#include <cstddef>

namespace rt
{
  const int MAXF = 14;                        // fibers per run

  struct Rng
  {
    std::uint64_t s;
    explicit Rng( std::uint64_t seed = 1 ) : s( seed * 0x9E3779B97F4A7C15ull + 0x1234567 ) { next(); }
    std::uint64_t next()
    {
      std::uint64_t z = ( s += 0x9E3779B97F4A7C15ull );
      z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
      z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
      return z ^ ( z >> 31 );
    }
    unsigned below( unsigned n ) { return n ? unsigned( next() % n ) : 0; }
    bool chance( unsigned num, unsigned den ) { return below( den ) < num; }
    int range( int lo, int hi ) { return lo + int( below( unsigned( hi - lo + 1 ) ) ); }
  };

  // One deviation from the default schedule: at point n of fiber f choose v.  kind 'S': lock-level point,
  // 'M': n-th memory access.
  struct Deviation { char kind; int fiber; std::uint64_t n; int v; };

  struct SchedConfig
  {
    bool replay = false;
    std::uint64_t seed = 1;
    int strategy = 0;        // 0 random walk, 1 PCT, 2 run to block (default schedule)
    unsigned switchNum = 1, switchDen = 4;  // random walk: chance of a switch at a lock-level point
    unsigned memDen = 0;     // 0: no preemption at memory accesses, else mean distance between them
    int pctDepth = 3;
    unsigned pctLength = 400;
    unsigned spuriousDen = 0; // 0: no spurious wake-ups, else 1/n per scheduling point with a waiter
    std::uint64_t maxSteps = 60000, maxAccesses = 3000000;
    bool verbose = false;
    bool reuse = false;      // released memory is handed out again, last released first
  };

  struct Stats
  {
    std::uint64_t syncPoints = 0, switches = 0, preemptions = 0, memAccesses = 0, memPreempts = 0, atomics = 0,
      spurious = 0, allocFaults = 0, allocs = 0, condWaits = 0, notifies = 0, notifyNoWaiter = 0, contended = 0,
      initFaults = 0, reused = 0;
    std::uint64_t schedHash = 0;
  };

  enum Outcome { Ok, Violated, StepLimit };

  // --- called by the host (outside fibers) -----------------------------------------------------------------
  Outcome run( const SchedConfig &, void ( *mainFiber )( void * ), void * arg );
  const char * violationClass();
  const char * violationText();
  const Deviation * deviations( std::size_t & n );
  void setReplay( const Deviation * d, std::size_t n );
  const Stats & stats();
  void installCrashHandler( void ( *onCrash )( int sig ) );

  // --- called inside fibers --------------------------------------------------------------------------------
  int self();
  int spawn( void ( *f )( void * ), void * arg );   // returns the fiber id
  void join( int fiber );                           // blocks until it has finished; acquires its effects
  bool finished( int fiber );
  bool blockedInWait( int fiber );                  // waiting on a condition variable
  bool blockedOnLock( int fiber );
  void waitQuiescent();                             // blocks until no other fiber can run
  void yieldPoint();                                // an explicit scheduling point
  int holdsLocks( int fiber );
  [[noreturn]] void violation( const char * cls, const char * fmt, ... ) __attribute__(( format( printf, 2, 3 ) ));
  // happens-before edges established by the harness itself
  void release( int slot );
  bool acquire( int slot );                         // false if nothing was released to this slot yet
  void failAllocation( int k );                     // the k-th allocation from now by this fiber fails (0: none)
  int suspendFailures();                            // no injected allocation failure until resumeFailures( result )
  void resumeFailures( int k );
  bool allocationFailed();                          // did one fail since failAllocation()?
  void failInit( int k );                           // the k-th pthread_{mutex,cond}_init from now fails
  std::size_t liveBlocks();                         // arena blocks allocated and not freed
  std::uint64_t now();                              // global event counter (advances with every log entry)
  bool inFiber();
  void describeLive( char * buf, std::size_t n );

  // --- event log (fixed size entries, no allocation, not instrumented) --------------------------------------
  struct Ev { std::uint32_t seq; std::uint8_t fiber; std::uint8_t kind; std::int32_t a, b, c, d; };
  void log( int kind, int a = 0, int b = 0, int c = 0, int d = 0 );
  const Ev * events( std::size_t & n );
  std::uint64_t logHash();
}
#endif
