// The program a simulated run executes: what every fiber does, plus configuration.  Plain data.
#ifndef SIM_PLAN_HPP
#define SIM_PLAN_HPP
#include <vector>
#include <map>
#include <string>

struct Op
{
  char kind;   // Q item, T terminate, C create, D destroy, I initiate, X terminate processor, E event, Y yield,
               // H throw, Z drop shared event reference, R run, M machine step
  int id;      // unique; the unit of work this op submits
  int sch;     // scheduler
  int a, b, c; // see work.hpp
  int fail;    // allocation number that fails during this op, 0: none
};

struct Program
{
  std::string prop;
  int stype = 0;               // 0 default scheduler, 1 custom allocators, 2 bare worker; single-threaded build: 3 scheduler, 4 bare worker
  int nSched = 1;
  int wait[ 3 ] = { 0, 0, 0 };
  int nClients = 1;
  int initFail = 0;            // fail the k-th mutex/condition initialisation of the scheduler constructors
  int nShared = 0;             // shared events
  std::vector< Op > ops[ 16 ]; // by fiber: 1..nSched are workers, then clients
  std::map< int, std::vector< Op > > body; // by unit id: executed when the unit runs
  int reuse = 0;               // released memory is reused
  int mode = 0;                // 0 schedulers, 1 private machines, 2 one run call with very many items
};

enum LogKind
{
  QI = 1, QR, XB, XE, XT, RB, RR, RX, PC, PD, PI, PE, PT, PU, AR, AP, AU, AI, AX, AD, MT, BADARG, PHASE, EMPTY, SKIP, DRAIN,
  PX, INITX, AB, TF
};
extern Program * g_prog;
void mainFiber0( void * ); void mainFiber1( void * ); void mainFiber2( void * ); void mainFiberM( void * );
extern "C" __attribute__(( weak )) void simSingle3( void * ); extern "C" __attribute__(( weak )) void simSingle4( void * ); // absent when that build is
void massFiber0( void * ); void massFiber1( void * ); void massFiber2( void * );
#endif
