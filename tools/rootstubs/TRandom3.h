#pragma once
/* declarations only: lets the analyses parse sources that name ROOT's generator */
class TRandom { public: virtual double Rndm(); virtual double Uniform(double a = 1); virtual double Uniform(double a, double b); virtual double Gaus(double m = 0, double s = 1); virtual unsigned Integer(unsigned n); };
class TRandom3 : public TRandom { public: TRandom3(unsigned seed = 4357); void SetSeed(unsigned long s = 0); };
extern TRandom* gRandom;
