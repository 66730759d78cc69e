#include "work.hpp"
void mainFiber2( void * a ) { World< sc::fifo_worker<> >::mainFiber( a ); }
void massFiber2( void * a ) { World< sc::fifo_worker<> >::massFiber( a ); }
