#include "work.hpp"
void mainFiber0( void * a ) { World< sc::fifo_scheduler<> >::mainFiber( a ); }
void massFiber0( void * a ) { World< sc::fifo_scheduler<> >::massFiber( a ); }
