// Simulator stand-in for ROOT's TStopwatch: reads the simulated clock.
#ifndef SIM_TSTOPWATCH_H
#define SIM_TSTOPWATCH_H
#include "TypesStub.h"
class TStopwatch {
public:
  TStopwatch() : fStart(0) { Start(); }
  void Start(bool = true);
  void Stop() {}
  void Continue() {}
  void Reset() { Start(); }
  double RealTime();
  double CpuTime() { return RealTime(); }
private:
  double fStart;
};
#endif
