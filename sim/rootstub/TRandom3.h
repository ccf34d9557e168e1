// Simulator stand-in for ROOT's TRandom3: a deterministic generator owned by the simulator.
#ifndef SIM_TRANDOM3_H
#define SIM_TRANDOM3_H
#include <cstdint>
class TRandom {
public:
  TRandom(unsigned seed = 4357);
  virtual ~TRandom() {}
  double Rndm();
  double Uniform(double x1 = 1) { return x1 * Rndm(); }
  double Uniform(double a, double b) { return a + (b - a) * Rndm(); }
  void RndmArray(int n, double *v) { for (int i = 0; i < n; i++) v[i] = Rndm(); }
  double Gaus(double mean = 0, double sigma = 1);
  int Poisson(double mean);
  double PoissonD(double mean) { return Poisson(mean); }
  unsigned Integer(unsigned imax);
  double Exp(double tau);
  void SetSeed(unsigned long seed = 0);
  unsigned GetSeed() const;
private:
  uint64_t fState;
  unsigned fSeed;
};
class TRandom3 : public TRandom { public: TRandom3(unsigned seed = 4357) : TRandom(seed) {} };
#endif
