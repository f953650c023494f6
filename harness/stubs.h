// Stand-ins for parts that no property depends on: the 1000-entry kernel tables that every Nbody/Sph
// object builds (the analytic kernels are used instead) and the wall-clock timers.
#pragma once
#include "SmoothingKernel.h"
#include "CodeTiming.h"
template <int n> TabulatedKernel<n>::TabulatedKernel(string, int r) : SmoothingKernel<n>() { res = r; tableW0 = tableW1 = tableWomega = tableWzeta = tableWgrav = tableWpot = tableWdrag = tableW0_s2 = tableWomega_s2 = tableWzeta_s2 = tableLOS = NULL; kernel = NULL; }
template <int n> TabulatedKernel<n>::TabulatedKernel(const TabulatedKernel<n>& o) : SmoothingKernel<n>(o) { res = o.res; tableW0 = tableW1 = tableWomega = tableWzeta = tableWgrav = tableWpot = tableWdrag = tableW0_s2 = tableWomega_s2 = tableWzeta_s2 = tableLOS = NULL; kernel = NULL; }
template <int n> void TabulatedKernel<n>::initializeTableLOS() {}
template class TabulatedKernel<1>; template class TabulatedKernel<2>; template class TabulatedKernel<3>;
CodeTiming::CodeTiming() {}
CodeTiming::~CodeTiming() {}
CodeTiming::__BlockTimerProxy CodeTiming::StartNewTimer(string s) { return __BlockTimerProxy(s, this, true); }
CodeTiming::__BlockTimerProxy CodeTiming::NewTimer(string s) { return __BlockTimerProxy(s, this, true); }
void CodeTiming::ComputeTimingStatistics(string) {}
double CodeTiming::RunningTime() const { return 0; }
void CodeTiming::__check_timing_level(unsigned int, const string&) const {}
template <int n> SmoothingKernel<n>* SmoothingKernel<n>::KernelFactory(string) { return NULL; }
template SmoothingKernel<1>* SmoothingKernel<1>::KernelFactory(string); template SmoothingKernel<2>* SmoothingKernel<2>::KernelFactory(string); template SmoothingKernel<3>* SmoothingKernel<3>::KernelFactory(string);
