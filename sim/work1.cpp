#include "work.hpp"
typedef sc::fifo_scheduler< sc::fifo_worker< CAlloc< sc::none > >, CAlloc< sc::none > > S1;
void mainFiber1( void * a ) { World< S1 >::mainFiber( a ); }
void massFiber1( void * a ) { World< S1 >::massFiber( a ); }
