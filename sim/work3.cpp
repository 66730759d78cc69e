// Single-threaded build of the library; every symbol of this file except the two below is made local after compiling.
#define BOOST_DISABLE_THREADS
#include "work.hpp"
#ifdef BOOST_HAS_THREADS
#error "this is meant to be a single-threaded build"
#endif
extern "C" void simSingle3( void * a ) { World< sc::fifo_scheduler<> >::mainFiber( a ); }
extern "C" void simSingle4( void * a ) { World< sc::fifo_worker<> >::mainFiber( a ); }
